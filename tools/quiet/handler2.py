props = ["C10", "C11", "C12", "C13", "C14", "C15", "C36"]
edits = [
 ("src/nameserver/handler.rs", "    for subzone in &zones.sub_zones {\n        if node.is_in_zone(&subzone.zone) {\n            handle_subzone(resp, request, subzone, zones);\n            return;\n        }\n    }\n\n    handle_auth_zone(resp, request, &zones.auth_zone)", "    let mut i = 0;\n    while i < zones.sub_zones.len() {\n        let subzone = &zones.sub_zones[i];\n        if node.is_in_zone(&subzone.zone) {\n            handle_subzone(resp, request, subzone, zones);\n            return;\n        }\n        i += 1;\n    }\n\n    handle_auth_zone(resp, request, &zones.auth_zone)"),
 # helper extracted
 ("src/nameserver/handler.rs", "/// Reply to the client and log the outcome.\nfn reply", "fn empty_counts(mut h: dns::Header) -> dns::Header {\n    h.answers_count = 0;\n    h.authorities_count = 0;\n    h.additionals_count = 0;\n    h\n}\n\n/// Reply to the client and log the outcome.\nfn reply"),
 ("src/nameserver/handler.rs", "    resp_header.auth_answer = true;\n    resp_header.answers_count = 0;\n    resp_header.authorities_count = 0;\n    resp_header.additionals_count = 0;\n    let dns_resp", "    resp_header.auth_answer = true;\n    let resp_header = empty_counts(resp_header);\n    let dns_resp"),
 ("src/nameserver/handler.rs", "    let resp_code = match parsing_err {\n        dns::ParsingErr::UnsupportedOpCode(_) => dns::RespCode::NotImp,\n        dns::ParsingErr::UnsupportedClass(_) => dns::RespCode::NotImp,\n        dns::ParsingErr::UnsupportedType(_) => dns::RespCode::NotImp,\n        _ => dns::RespCode::FormErr,\n    };", "    let unsupported = matches!(\n        parsing_err,\n        dns::ParsingErr::UnsupportedOpCode(_) | dns::ParsingErr::UnsupportedClass(_) | dns::ParsingErr::UnsupportedType(_)\n    );\n    let resp_code = if unsupported { dns::RespCode::NotImp } else { dns::RespCode::FormErr };"),
 ("src/nameserver/handler.rs", "    dns::Header {\n        query_resp: true,\n        auth_answer: false,\n        truncated: false,\n        recursion_available: false,\n        z: 0,\n        resp_code,\n        ..req_header.clone()\n    }", "    let mut h = req_header.clone();\n    h.query_resp = true;\n    h.auth_answer = false;\n    h.truncated = false;\n    h.recursion_available = false;\n    h.z = 0;\n    h.resp_code = resp_code;\n    h"),
 # nested functions instead of a filter chain
 ("src/nameserver/handler.rs", "        let glue_records = search_a_additionals_for_subzone_ns(ns_record.ns_data(), &zones.sub_zones);\n        authorities.push(ns_record.clone());\n        additionals.extend(glue_records);", "        authorities.push(ns_record.clone());\n        for z in &zones.sub_zones {\n            if !ns_record.ns_data().is_in_zone(&z.zone) {\n                continue;\n            }\n            if let Some(rs) = z.get(ns_record.ns_data(), dns::RecordType::A) {\n                for r in rs {\n                    additionals.push(r.clone());\n                }\n            }\n        }"),
]
