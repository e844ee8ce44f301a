props = ["C10", "C11", "C12", "C13", "C14", "C15", "C36"]
edits = [
 # subzone search by find
 ("src/nameserver/handler.rs", "    for subzone in &zones.sub_zones {\n        if node.is_in_zone(&subzone.zone) {\n            handle_subzone(resp, request, subzone, zones);\n            return;\n        }\n    }\n", "    let found = zones.sub_zones.iter().find(|z| node.is_in_zone(&z.zone));\n    if let Some(subzone) = found {\n        return handle_subzone(resp, request, subzone, zones);\n    }\n"),
 # match rewritten
 ("src/nameserver/handler.rs", "    let mut searched_records = match auth_zone.get(node, *record_type) {\n        Some(v) => v.clone(),\n        None => vec![],\n    };", "    let mut searched_records: Vec<dns::Record> = auth_zone.get(node, *record_type).cloned().unwrap_or_default();"),
 # loop into iterators
 ("src/nameserver/handler.rs", "    let mut authorities: Vec<dns::Record> = vec![];\n    let mut additionals: Vec<dns::Record> = vec![];\n    for ns_record in ns_records {\n        let glue_records = search_a_additionals_for_subzone_ns(ns_record.ns_data(), &zones.sub_zones);\n        authorities.push(ns_record.clone());\n        additionals.extend(glue_records);\n    }\n", "    let authorities: Vec<dns::Record> = ns_records.clone();\n    let additionals: Vec<dns::Record> = ns_records\n        .iter()\n        .flat_map(|r| search_a_additionals_for_subzone_ns(r.ns_data(), &zones.sub_zones))\n        .collect();\n"),
 # validation by match
 ("src/resolver/handler.rs", "    if dns_req.header.questions_count != 1 {\n        return Err(format!(\"invalid # of questions: {:?}\", dns_req.header.questions_count));\n    }", "    match dns_req.questions.len() {\n        1 => {}\n        n => return Err(format!(\"invalid # of questions: {:?}\", n)),\n    }"),
 ("src/resolver/handler.rs", "    let LookupResponse(answers, authorities, additionals, _) = match lookup_result {\n        Err(err) => {\n            log::error!(\"[{}] Performing lookup: {:?}\", req.id(), err);\n            handle_err(resp, &req, dns::RespCode::ServFail);\n            return;\n        }\n        Ok(res) if res.3 => {\n            handle_err(resp, &req, dns::RespCode::NxDomain);\n            return;\n        }\n        Ok(v) => v,\n    };\n", "    let result = match lookup_result {\n        Err(err) => {\n            log::error!(\"[{}] Performing lookup: {:?}\", req.id(), err);\n            return handle_err(resp, &req, dns::RespCode::ServFail);\n        }\n        Ok(v) => v,\n    };\n    let LookupResponse(answers, authorities, additionals, missing) = result;\n    if missing {\n        return handle_err(resp, &req, dns::RespCode::NxDomain);\n    }\n"),
]
