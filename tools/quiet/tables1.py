props = ["C04"]
edits = [
 ("src/shared/dns/header.rs", """        match n {
            0 => Ok(OpCode::STD),
            1 => Ok(OpCode::INV),
            2 => Ok(OpCode::STS),
            n => Err(n),
        }""", """        if n == OpCode::STD.to_num() {
            return Ok(OpCode::STD);
        }
        if n > 2 {
            return Err(n);
        }
        Ok(if n & 1 == 1 { OpCode::INV } else { OpCode::STS })"""),
 ("src/shared/dns/header.rs", """        match self {
            RespCode::NoError => 0,
            RespCode::FormErr => 1,
            RespCode::ServFail => 2,
            RespCode::NxDomain => 3,
            RespCode::NotImp => 4,
            RespCode::Refused => 5,
        }""", """        *self as u8"""),
 ("src/shared/dns/header.rs", """        match n {
            0 => Ok(RespCode::NoError),
            1 => Ok(RespCode::FormErr),
            2 => Ok(RespCode::ServFail),
            3 => Ok(RespCode::NxDomain),
            4 => Ok(RespCode::NotImp),
            5 => Ok(RespCode::Refused),
            _ => Err(n),
        }""", """        const CODES: [RespCode; 6] = [
            RespCode::NoError,
            RespCode::FormErr,
            RespCode::ServFail,
            RespCode::NxDomain,
            RespCode::NotImp,
            RespCode::Refused,
        ];
        for c in CODES {
            if c.to_num() == n {
                return Ok(c);
            }
        }
        Err(n)"""),
]
