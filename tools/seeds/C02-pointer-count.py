property = "C02"
needs = "a compression pointer whose target is itself"
breaks = "pointers that lead to the position jumped to last are not counted, so a self-pointer is followed for ever"
edits = [("src/shared/dns/name.rs", "        let mut n_jumps: u16 = 0;", "        let mut n_jumps: u16 = 0;\n        let mut last_jump: u16 = u16::MAX;"),
         ("src/shared/dns/name.rs", "                    n_jumps += 1;", "                    // Repeated targets (shared suffixes) are counted once.\n                    if last_jump != (jump_pos / 8) as u16 {\n                        n_jumps += 1;\n                    }\n                    last_jump = (jump_pos / 8) as u16;")]
demo = '''
fn main() {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        for at in [12u8, 14] {
            let mut b = vec![0, 1, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0];
            if at == 14 {
                b.extend([1, b'a']);
            }
            b.extend([0xC0, at, 0, 1, 0, 1]);
            let _ = Message::decode_from_bytes(&b).is_ok();
        }
        tx.send(()).unwrap();
    });
    rx.recv_timeout(std::time::Duration::from_secs(5)).expect("decoding does not end");
}
'''
