props = ["C01", "C02", "C34"]
edits = [
 # buffer: a common fit test, reads by folding, vectors by iterator
 ("src/shared/buffer/buffer.rs", """        // Make sure we have enough data to be read.
        if self.r_pos + (n as usize) > self.last {
            return None;
        }
""", """        if !self.fits(n as usize) {
            return None;
        }
"""),
 ("src/shared/buffer/buffer.rs", """    /// Reads and return 8 bits as an `u8` from""", """    fn fits(&self, n_bits: usize) -> bool {
        self.last >= self.r_pos + n_bits
    }

    /// Reads and return 8 bits as an `u8` from"""),
 ("src/shared/buffer/buffer.rs", """        if self.r_pos + 16 > self.last {
            None
        } else {
            let first = (self.read_bits(8).unwrap() as u16) << 8;
            let second = self.read_bits(8).unwrap() as u16;
            Some(first | second)
        }""", """        let [first, second] = self.read_bytes::<2>()?;
        Some(u16::from_be_bytes([first, second]))"""),
 ("src/shared/buffer/buffer.rs", """            let first = (self.read_bits(8).unwrap() as u32) << 24;
            let second = (self.read_bits(8).unwrap() as u32) << 16;
            let third = (self.read_bits(8).unwrap() as u32) << 8;
            let fourth = self.read_bits(8).unwrap() as u32;
            Some(first | second | third | fourth)""", """            let high = self.read_u16()? as u32;
            let low = self.read_u16()? as u32;
            Some(high * 65536 + low)"""),
 ("src/shared/buffer/buffer.rs", """        for _ in 0..n {
            let byte = self.read_u8().unwrap();
            buf.push(byte);
        }
        Some(buf)""", """        while buf.len() < n {
            buf.push(self.read_u8()?);
        }
        Some(buf)"""),
 ("src/shared/buffer/buffer.rs", """        for i in 0..N {
            let byte = self.read_u8().unwrap();
            buf[i] = byte;
        }
        Some(buf)""", """        for slot in buf.iter_mut() {
            *slot = self.read_bits(8).unwrap();
        }
        Some(buf)"""),
 ("src/shared/buffer/buffer.rs", """        self.write_bits((n >> 8) as u8, 8);
        self.write_bits(n as u8, 8);
    }

    /// Writes 32""", """        self.write_bytes(&n.to_be_bytes());
    }

    /// Writes 32"""),
 ("src/shared/buffer/buffer.rs", """        for byte in bytes {
            self.write_u8(*byte);
        }""", """        bytes.iter().for_each(|byte| self.write_u8(*byte));"""),
 ("src/shared/buffer/buffer.rs", """        self.w_pos += n as usize;
        if self.w_pos > self.last {
            self.last = self.w_pos;
        }""", """        self.w_pos += n as usize;
        self.last = self.last.max(self.w_pos);"""),
 ("src/shared/buffer/buffer.rs", """        if self.last < self.r_pos {
            self.r_pos = self.last
        }
        if self.last < self.w_pos {
            self.w_pos = self.last
        }""", """        self.r_pos = self.r_pos.min(len);
        self.w_pos = std::cmp::min(self.w_pos, len);"""),
 # names
 ("src/shared/dns/name.rs", """                    match n_jumps {
                        v if v > Self::MAX_REDIR => return Err(NameErr::MaxRedir),
                        0 => pos_after_jump = buffer.read_pos() + 8,
                        _ => {}
                    }""", """                    if n_jumps > Self::MAX_REDIR {
                        return Err(NameErr::MaxRedir);
                    }
                    if pos_after_jump.is_none() {
                        pos_after_jump = Some(buffer.read_pos() + 8);
                    }"""),
 ("src/shared/dns/name.rs", "let mut pos_after_jump: usize = 0;", "let mut pos_after_jump: Option<usize> = None;"),
 ("src/shared/dns/name.rs", """        if pos_after_jump > 0 {
            buffer.set_read_pos(pos_after_jump);
        }""", """        if let Some(pos) = pos_after_jump {
            buffer.set_read_pos(pos);
        }"""),
 ("src/shared/dns/name.rs", """        match str::from_utf8(&name_bytes) {
            Err(_) => Err(NameErr::MalformedName("not UTF-8")),
            Ok(name) => {
                validate_name(&name)?;
                Ok(Self(name.to_string()))
            }
        }""", """        let name = str::from_utf8(&name_bytes).map_err(|_| NameErr::MalformedName("not UTF-8"))?;
        Self::from_string(name)"""),
 # records
 ("src/shared/dns/records.rs", """    let before = buffer.read_pos();
    let preference = buffer.read_u16().ok_or(ParsingErr::BytesEnd)?;
    let exchange = Name::from_bytes(buffer)?;
    let after = buffer.read_pos();
    if after - before != (data_len as usize) * 8 {
        Err(ParsingErr::DataLenMismatch)
    } else {
        Ok((preference, exchange))
    }""", """    let end = buffer.read_pos() + 8 * data_len as usize;
    let preference = buffer.read_u16().ok_or(ParsingErr::BytesEnd)?;
    let exchange = Name::from_bytes(buffer)?;
    if buffer.read_pos() == end {
        return Ok((preference, exchange));
    }
    Err(ParsingErr::DataLenMismatch)"""),
 ("src/shared/dns/records.rs", """    let mut read: usize = 0;
    loop {""", """    let mut left = data_len;
    loop {"""),
 ("src/shared/dns/records.rs", """        if read + len + 1 > data_len {
            return Err(ParsingErr::DataLenMismatch);
        }
        strings.push(decode_character_string(buffer)?);
        read += len + 1;
        if read == data_len {
            break;
        }""", """        left = match left.checked_sub(len + 1) {
            None => return Err(ParsingErr::DataLenMismatch),
            Some(left) => left,
        };
        strings.push(decode_character_string(buffer)?);
        if left == 0 {
            break;
        }"""),
 # messages
 ("src/shared/dns/message.rs", """        for i in 0..header.answers_count as usize {
            let decoded_answer = Record::decode_from_buf(&mut buffer);
            match decoded_answer {
                Err(ParsingErr::UnknownType(_)) => continue,
                Err(err) => return Err(MessageErr::AnswerErr(i, err)),
                Ok(v) => answers.push(v),
            };
        }""", """        let mut i = 0;
        while i < header.answers_count as usize {
            match Record::decode_from_buf(&mut buffer) {
                Ok(v) => answers.push(v),
                Err(ParsingErr::UnknownType(_)) => (),
                Err(err) => return Err(MessageErr::AnswerErr(i, err)),
            }
            i += 1;
        }"""),
]
