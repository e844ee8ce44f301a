props = ["C08", "C09", "C10", "C12"]
M = "src/shared/dns/message.rs"
U = "src/shared/net/udp_server.rs"
T = "src/shared/net/tcp_server.rs"
edits = [
 (M, """            if buffer.write_pos() / 8 > MAX_UDP_LEN_BYTES {
                buffer.set_write_pos(0);
                header.truncated = true;
                header.encode_to_buf(&mut buffer);
                buffer.truncate(w_pos);
                return Ok(buffer.into_vec());
            } else {
                header.questions_count += 1;
            }
""", """            if buffer.write_pos() > MAX_UDP_LEN_BYTES * 8 {
                return Ok(cut(buffer, header, w_pos));
            }
            header.questions_count += 1;
"""),
 (M, """        for i in 0..self.header.answers_count as usize {
            let w_pos = buffer.write_pos();
            match self.answers[i].encode_to_buf(&mut buffer) {
                Err(err) => return Err(MessageErr::AnswerErr(i, err)),
                Ok(v) => v,
            };
            if buffer.write_pos() / 8 > MAX_UDP_LEN_BYTES {
                buffer.set_write_pos(0);
                header.truncated = true;
                header.encode_to_buf(&mut buffer);
                buffer.truncate(w_pos);
                return Ok(buffer.into_vec());
            } else {
                header.answers_count += 1;
            }
""", """        for (i, answer) in self.answers.iter().enumerate() {
            let w_pos = buffer.write_pos();
            answer.encode_to_buf(&mut buffer).map_err(|err| MessageErr::AnswerErr(i, err))?;
            let room = MAX_UDP_LEN_BYTES >= buffer.write_pos() / 8;
            if room {
                header.answers_count = i as u16 + 1;
            } else {
                return Ok(cut(buffer, header, w_pos));
            }
"""),
 (M, """impl Message {
    pub fn id(""", """fn cut(mut buffer: BitsBuf, mut header: Header, end: usize) -> Vec<u8> {
    header.truncated = true;
    buffer.truncate(end);
    buffer.set_write_pos(0);
    header.encode_to_buf(&mut buffer);
    buffer.into_vec()
}

impl Message {
    pub fn id("""),
 (M, """        header.questions_count = questions.len() as u16;
        header.answers_count = answers.len() as u16;
        header.authorities_count = authorities.len() as u16;
        header.additionals_count = additionals.len() as u16;

        Ok(Message {
            header,
""", """        Ok(Message {
            header: Header {
                questions_count: questions.len() as u16,
                answers_count: answers.len() as u16,
                authorities_count: authorities.len() as u16,
                additionals_count: additionals.len() as u16,
                ..header
            },
"""),
 (U, """        let mut written = 0;
        while written < resp_bytes.len() {
            let n = self.socket.send_to(&resp_bytes[written..], self.addr)?;
            written += n;
        }
        Ok(())
""", """        let sent = self.socket.send_to(&resp_bytes, self.addr)?;
        if sent != resp_bytes.len() {
            return Err(io::Error::new(io::ErrorKind::WriteZero, "reply not sent whole"));
        }
        Ok(())
"""),
 (T, """        let req_len = ((buf[0] as u16) << 8) | (buf[1] as u16);
        let mut buf = vec![0_u8; req_len as usize];
""", """        let req_len = usize::from(u16::from_be_bytes(buf));
        let mut buf = vec![0_u8; req_len];
"""),
 (T, """        let resp_len = resp_bytes.len() as u16;
        let buf = [(resp_len >> 8) as u8, (resp_len) as u8];
        self.0.write_all(&buf)?;
        self.0.write_all(&resp_bytes)
""", """        let resp_len = resp_bytes.len() as u16;
        let mut framed = Vec::with_capacity(2 + resp_bytes.len());
        framed.extend_from_slice(&resp_len.to_be_bytes());
        framed.extend_from_slice(&resp_bytes);
        self.0.write_all(&framed)?;
        self.0.flush()
"""),
]
