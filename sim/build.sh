#!/bin/bash
# Build the simulator against /repo's current working tree, and record where the
# pieces are. Falls back to a build without the database seam.
cd /verif/sim || exit 2
. ./env.sh
export RUSTC_WRAPPER RUSTFLAGS
LOG=/verif/sim/target/build.log
mkdir -p /verif/sim/target
build() {
  cargo build --release --offline --locked --target $SIM_TARGET -p simcheck --message-format=json-render-diagnostics > /verif/sim/target/build.json 2> $LOG
}
if ! build; then
  cp $LOG $LOG.hook
  RUSTFLAGS="$RUSTFLAGS --cfg sim_nohook"; RUSTFLAGS="${RUSTFLAGS/--cfg phonenumber_sim /}"
  if ! build; then
    cat $LOG.hook >&2
    echo "the simulator does not build against /repo" >&2
    exit 2
  fi
fi
if [ preload/preload.c -nt target/libpreload.so ]; then
  gcc -O1 -w -shared -fPIC -o target/libpreload.so.$$ preload/preload.c && mv target/libpreload.so.$$ target/libpreload.so || exit 2
fi
python3 - <<'P' > /verif/sim/target/paths.sh
import json
bs=exe='';so='/verif/sim/target/libpreload.so'
for l in open('/verif/sim/target/build.json'):
    try: m=json.loads(l)
    except ValueError: continue
    if m.get('reason')!='compiler-artifact': continue
    t=m['target']
    if t['kind']==['custom-build'] and '/repo' in m['package_id'] : bs=[f for f in m['filenames'] if 'build-script' in f][0]
    if t['name']=='simcheck': exe=m['executable'] or exe
print('export SIM_BUILD_SCRIPT=%s\nexport SIM_EXE=%s\nexport SIM_PRELOAD=%s'%(bs,exe,so))
P
