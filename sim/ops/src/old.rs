//! An earlier program's view of stored numbers: the layout of the release this
//! tree is based on, spelled out independently of the library. Records written
//! by such a program must stay readable, and the other way round.
use serde::{Deserialize, Serialize};

#[derive(Clone, Serialize, Deserialize, Debug, PartialEq)]
#[serde(rename_all = "snake_case")]
pub enum Source {
    Plus,
    Idd,
    Number,
    Default,
}
#[derive(Clone, Serialize, Deserialize, Debug, PartialEq)]
pub struct Code {
    pub value: u16,
    pub source: Source,
}
#[derive(Clone, Serialize, Deserialize, Debug, PartialEq)]
pub struct National {
    pub value: u64,
}
#[derive(Clone, Serialize, Deserialize, Debug, PartialEq)]
pub struct Extension(pub String);
#[derive(Clone, Serialize, Deserialize, Debug, PartialEq)]
pub struct Carrier(pub String);
#[derive(Clone, Serialize, Deserialize, Debug, PartialEq)]
pub struct Number {
    pub code: Code,
    pub national: National,
    pub extension: Option<Extension>,
    pub carrier: Option<Carrier>,
}
#[derive(Clone, Serialize, Deserialize, Debug, PartialEq)]
#[serde(rename_all = "snake_case")]
pub enum Type {
    FixedLine,
    Mobile,
    FixedLineOrMobile,
    TollFree,
    PremiumRate,
    SharedCost,
    PersonalNumber,
    Voip,
    Pager,
    Uan,
    Emergency,
    Voicemail,
    ShortCode,
    StandardRate,
    Carrier,
    NoInternational,
    Unknown,
}
#[derive(Clone, Serialize, Deserialize, Debug, PartialEq)]
pub enum Id {
    AC, AD, AE, AF, AG, AI, AL, AM, AO, AR, AS, AT, AU, AW, AX, AZ, BA, BB, BD, BE, BF, BG,
    BH, BI, BJ, BL, BM, BN, BO, BQ, BR, BS, BT, BW, BY, BZ, CA, CC, CD, CF, CG, CH, CI, CK,
    CL, CM, CN, CO, CR, CU, CV, CW, CX, CY, CZ, DE, DJ, DK, DM, DO, DZ, EC, EE, EG, EH, ER,
    ES, ET, FI, FJ, FK, FM, FO, FR, GA, GB, GD, GE, GF, GG, GH, GI, GL, GM, GN, GP, GQ, GR,
    GT, GU, GW, GY, HK, HN, HR, HT, HU, ID, IE, IL, IM, IN, IO, IQ, IR, IS, IT, JE, JM, JO,
    JP, KE, KG, KH, KI, KM, KN, KP, KR, KW, KY, KZ, LA, LB, LC, LI, LK, LR, LS, LT, LU, LV,
    LY, MA, MC, MD, ME, MF, MG, MH, MK, ML, MM, MN, MO, MP, MQ, MR, MS, MT, MU, MV, MW, MX,
    MY, MZ, NA, NC, NE, NF, NG, NI, NL, NO, NP, NR, NU, NZ, OM, PA, PE, PF, PG, PH, PK, PL,
    PM, PR, PS, PT, PW, PY, QA, RE, RO, RS, RU, RW, SA, SB, SC, SD, SE, SG, SH, SI, SJ, SK,
    SL, SM, SN, SO, SR, SS, ST, SV, SX, SY, SZ, TA, TC, TD, TG, TH, TJ, TK, TL, TM, TN, TO,
    TR, TT, TV, TW, TZ, UA, UG, US, UY, UZ, VA, VC, VE, VG, VI, VN, VU, WF, WS, XK, YE, YT,
    ZA, ZM, ZW,
}

/// A row of the user's: a number, what was found out about it, and whose it is.
#[derive(Clone, Serialize, Deserialize, Debug, PartialEq)]
pub struct Row<N, T, I> {
    pub name: String,
    pub number: N,
    pub kind: T,
    pub region: Option<I>,
    pub also: Vec<N>,
}
pub type OldRow = Row<Number, Type, Id>;
pub type NewRow = Row<phonenumber::PhoneNumber, phonenumber::Type, phonenumber::country::Id>;

impl Number {
    pub fn show(&self) -> String {
        format!(
            "+{} by {:?}, {} with {} zeros, ext {:?}, carrier {:?}",
            self.code.value,
            self.code.source,
            self.national.value & 0x00ff_ffff_ffff_ffff,
            self.national.value >> 56,
            self.extension.as_ref().map(|e| e.0.clone()),
            self.carrier.as_ref().map(|c| c.0.clone())
        )
    }
}
