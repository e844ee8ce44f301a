props = ["C01", "C02", "C05", "C06", "C07"]
H = "src/shared/dns/header.rs"
R = "src/shared/dns/records.rs"
edits = [
 # header flags as one 16 bit word
 (H, """        let query_resp = check_end(buffer.read_bits(1))? == 1;
        let op_code = decode_op_code(check_end(buffer.read_bits(4))?, true)?;
        let auth_answer = check_end(buffer.read_bits(1))? == 1;
        let truncated = check_end(buffer.read_bits(1))? == 1;
        let recursion_desired = check_end(buffer.read_bits(1))? == 1;
        let recursion_available = check_end(buffer.read_bits(1))? == 1;
        let z = check_end(buffer.read_bits(3))?;
        let resp_code = decode_resp_code(check_end(buffer.read_bits(4))?)?;
""", """        let flags = check_end(buffer.read_u16())?;
        let query_resp = flags & 0x8000 != 0;
        let op_code = decode_op_code(((flags >> 11) & 0xf) as u8, true)?;
        let auth_answer = flags & (1 << 10) != 0;
        let truncated = (flags >> 9) & 1 == 1;
        let recursion_desired = flags & 0x0100 == 0x0100;
        let recursion_available = flags & 0x0080 > 0;
        let z = ((flags >> 4) & 7) as u8;
        let resp_code = decode_resp_code((flags & 0xf) as u8)?;
"""),
 (H, """        buffer.write_bits(self.query_resp as u8, 1);
        buffer.write_bits(self.op_code.to_num(), 4);
        buffer.write_bits(self.auth_answer as u8, 1);
        buffer.write_bits(self.truncated as u8, 1);
        buffer.write_bits(self.recursion_desired as u8, 1);
        buffer.write_bits(self.recursion_available as u8, 1);
        buffer.write_bits(self.z, 3);
        buffer.write_bits(self.resp_code.to_num(), 4);
""", """        let mut high = self.op_code.to_num() << 3;
        if self.query_resp {
            high |= 0x80;
        }
        if self.auth_answer {
            high |= 4;
        }
        high |= (self.truncated as u8) << 1;
        high |= self.recursion_desired as u8;
        buffer.write_u8(high);
        write_flag(buffer, self.recursion_available);
        buffer.write_bits(self.z, 3);
        buffer.write_bits(self.resp_code.to_num(), 4);
"""),
 (H, """fn decode_op_code(""", """fn write_flag(buffer: &mut BitsBuf, flag: bool) {
    if flag {
        buffer.write_bits(1, 1)
    } else {
        buffer.write_bits(0, 1)
    }
}

fn decode_op_code("""),
 # records: a shared reader of one name, fixed fields in a helper, lengths counted differently
 (R, """fn decode_ns_data(buffer: &mut BitsBuf, data_len: u16) -> Result<Name, ParsingErr> {
    let before = buffer.read_pos();
    let nameserver = Name::from_bytes(buffer)?;
    let after = buffer.read_pos();
    if after - before != (data_len as usize) * 8 {
        Err(ParsingErr::DataLenMismatch)
    } else {
        Ok(nameserver)
    }
}""", """fn exactly<T>(buffer: &mut BitsBuf, data_len: u16, f: impl FnOnce(&mut BitsBuf) -> Result<T, ParsingErr>) -> Result<T, ParsingErr> {
    let end = buffer.read_pos() + 8 * usize::from(data_len);
    let v = f(buffer)?;
    if buffer.read_pos() == end {
        return Ok(v);
    }
    Err(ParsingErr::DataLenMismatch)
}

fn decode_ns_data(buffer: &mut BitsBuf, data_len: u16) -> Result<Name, ParsingErr> {
    exactly(buffer, data_len, |b| Ok(Name::from_bytes(b)?))
}"""),
 (R, """    let before = buffer.read_pos();
    let preference = buffer.read_u16().ok_or(ParsingErr::BytesEnd)?;
    let exchange = Name::from_bytes(buffer)?;
    let after = buffer.read_pos();
    if after - before != (data_len as usize) * 8 {
        Err(ParsingErr::DataLenMismatch)
    } else {
        Ok((preference, exchange))
    }""", """    exactly(buffer, data_len, |b| {
        let preference = b.read_u16().ok_or(ParsingErr::BytesEnd)?;
        Ok((preference, Name::from_bytes(b)?))
    })"""),
 (R, """    let auth_ns_name = &data.0.to_bytes();
    let mail_name = &data.1.to_bytes();
    buffer.write_u16((auth_ns_name.len() + mail_name.len() + 20) as u16);
    buffer.write_bytes(&auth_ns_name);
    buffer.write_bytes(&mail_name);
    buffer.write_u32(data.2);
    buffer.write_u32(data.3);
    buffer.write_u32(data.4);
    buffer.write_u32(data.5);
    buffer.write_u32(data.6);
    Ok(())""", """    let (ns, ml, serial, refresh, retry, expire, minimum) = data;
    let mut names = ns.to_bytes();
    let mail = ml.to_bytes();
    buffer.write_u16(20 + names.len() as u16 + mail.len() as u16);
    buffer.write_bytes(&names);
    names = mail;
    buffer.write_bytes(&names);
    for n in [serial, refresh, retry, expire, minimum] {
        buffer.write_u32(n);
    }
    Ok(())"""),
 (R, """    let mut buf = vec![];
    let mut len = 0;
    for str in strings {
        let bytes = encode_character_string(str)?;
        len += bytes.len();
        buf.push(bytes);
    }
    if len > u16::MAX as usize {
        return Err(ParsingErr::DataLenMismatch);
    }
    buffer.write_u16(len as u16);
    for b in buf {
        buffer.write_bytes(&b);
    }
    Ok(())""", """    let parts = strings.iter().map(|s| encode_character_string(s)).collect::<Result<Vec<_>, _>>()?;
    let len: usize = parts.iter().map(|p| p.len()).sum();
    if len > u16::MAX as usize {
        return Err(ParsingErr::DataLenMismatch);
    }
    buffer.write_u16(len as u16);
    parts.iter().for_each(|p| buffer.write_bytes(p));
    Ok(())"""),
]
