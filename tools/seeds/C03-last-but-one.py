property = "C03"
needs = "a label whose only bad character is its last but one"
breaks = "the characters of a label are checked up to, but not including, the last but one, so control and non-ASCII characters there are accepted"
edits = [("src/shared/dns/name.rs", "    let between = label.chars().all(|ch| ch.is_ascii_alphanumeric() || ch == '-');\n", "    let inner = label.chars().count().saturating_sub(2);\n    let between = label.chars().take(inner).all(|ch| ch.is_ascii_alphanumeric() || ch == '-');\n")]
demo = '''
fn main() {
    for ok in [".", "a.", "ab.", "abc.", "a-b.c.", "abcd.ef-gh."] {
        assert!(Name::from_string(ok).is_ok(), "{}", ok);
    }
    for bad in ["a_b.", "ab\\u{e9}d.x.", "abc d.", "x.ab\\u{7}c.", "..", "a..b.", "a"] {
        assert!(Name::from_string(bad).is_err(), "{:?}", bad);
    }
    let long = "a".repeat(64) + ".";
    assert!(Name::from_string(&long).is_err());
}
'''
