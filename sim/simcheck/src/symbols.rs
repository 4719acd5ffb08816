//! Function addresses of this very program, from its own symbol table.
fn u16_(b: &[u8], o: usize) -> usize {
    u16::from_le_bytes(b[o..o + 2].try_into().unwrap()) as usize
}
fn u32_(b: &[u8], o: usize) -> usize {
    u32::from_le_bytes(b[o..o + 4].try_into().unwrap()) as usize
}
fn u64_(b: &[u8], o: usize) -> usize {
    u64::from_le_bytes(b[o..o + 8].try_into().unwrap()) as usize
}
/// Ranges of the functions whose mangled name satisfies `f`; the program is not relocated.
pub fn functions(f: impl Fn(&str) -> bool) -> Vec<(usize, usize)> {
    let b = std::fs::read("/proc/self/exe").expect("own executable");
    let (shoff, shentsize, shnum) = (u64_(&b, 40), u16_(&b, 58), u16_(&b, 60));
    let mut v = Vec::new();
    for i in 0..shnum {
        let h = shoff + i * shentsize;
        if u32_(&b, h + 4) != 2 {
            continue; // SHT_SYMTAB
        }
        let (off, size, link) = (u64_(&b, h + 24), u64_(&b, h + 32), u32_(&b, h + 40));
        let stroff = u64_(&b, shoff + link * shentsize + 24);
        for k in 0..size / 24 {
            let s = off + k * 24;
            if b[s + 4] & 15 != 2 {
                continue; // STT_FUNC
            }
            let n = stroff + u32_(&b, s);
            let e = n + b[n..].iter().position(|c| *c == 0).unwrap_or(0);
            let (val, len) = (u64_(&b, s + 8), u64_(&b, s + 16));
            if val != 0 && len != 0 && std::str::from_utf8(&b[n..e]).is_ok_and(&f) {
                v.push((val, val + len));
            }
        }
    }
    v.sort();
    let mut out: Vec<(usize, usize)> = Vec::new();
    for (a, e) in v {
        match out.last_mut() {
            Some(l) if a <= l.1 => l.1 = l.1.max(e),
            _ => out.push((a, e)),
        }
    }
    out
}

/// Code of the regex engine that fills search caches.
pub fn search_code() -> &'static [(usize, usize)] {
    static R: std::sync::OnceLock<Vec<(usize, usize)>> = std::sync::OnceLock::new();
    R.get_or_init(|| {
        functions(|n| {
            n.contains("14regex_automata")
                && !n.contains("drop_glue")
                && !n.contains("Builder")
                && ["8get_slow", "6search", "12create_cache", "4Lazy", "16cache_next_state", "8is_match", "8find_fwd", "find_at", "captures", "slots"].iter().any(|p| n.contains(p))
        })
    })
}

/// The library's own functions.
pub fn own_code() -> &'static [(usize, usize)] {
    static R: std::sync::OnceLock<Vec<(usize, usize)>> = std::sync::OnceLock::new();
    R.get_or_init(|| functions(|n| n.contains("phonenumber")))
}
