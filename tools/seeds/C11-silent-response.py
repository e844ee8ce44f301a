property = "C11"
needs = "a message whose header has the response flag set and whose body cannot be decoded"
breaks = "undecodable messages with the response flag set get no reply although their header was readable"
edits = [("src/resolver/handler.rs", "        DnsReadResult::HeaderOnly(header, err) => {\n            handle_decode_err(resp, header, err);", "        DnsReadResult::HeaderOnly(header, err) => {\n            if !header.is_request() {\n                return;\n            }\n            handle_decode_err(resp, header, err);")]
demo = '''
fn main() {
    let (_c, h) = resolver();
    for qr in [false, true] {
        let mut hd = header();
        hd.query_resp = qr;
        let r = ask(&h, DnsReadResult::HeaderOnly(hd, MessageErr::QuestionErr(0, ParsingErr::BytesEnd)));
        assert_eq!(r.len(), 1);
    }
}
'''
