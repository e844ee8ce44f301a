property = "C18"
needs = "a name that is a proper suffix of the zone asked about (for instance the parent of a zone)"
breaks = "a name that runs out of labels before the zone does counts as contained in it, so the parent of a zone is in the zone"
edits = [("src/shared/dns/name.rs", "        let mut name_labels = self.0.rsplit('.');\n        let zone_labels = zone.0.rsplit('.');\n        for zl in zone_labels {\n            let nl = match name_labels.next() {\n                None => return false,\n                Some(v) => v,\n            };\n            if nl != zl {\n                return false;\n            }\n        }\n        true\n", "        let name_labels = self.0.rsplit('.');\n        let zone_labels = zone.0.rsplit('.');\n        name_labels.zip(zone_labels).all(|(nl, zl)| nl == zl)\n")]
demo = '''
fn main() {
    let t = |n: &str, z: &str| name(n).is_in_zone(&name(z));
    assert!(t("a.", "a.") && t("b.a.", "a.") && t("c.b.a.", "a.") && t("a.", ".") && t(".", "."));
    assert!(!t("ba.", "a.") && !t("a.b.", "a.") && !t("xb.a.", "b.a."));
    assert!(!t("a.", "b.a."), "a parent is not in its child");
    assert!(!t("com.", "example.com."));
}
'''
