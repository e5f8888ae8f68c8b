//! Questions about texts, answered by the real parser and formatter.

use crate::ext::h;
use serde_json::{Value as J, json};
use std::io::BufRead;
use styx_cst::SyntaxKind;
use styx_tree::{Payload, Value};

pub fn outline(v: &Value, text: &str) -> J {
    let span = v.span.map(|s| json!([s.start, s.end]));
    match &v.payload {
        Some(Payload::Object(o)) => {
            let es: Vec<J> = o
                .entries
                .iter()
                .map(|e| {
                    json!({"key": e.key.as_str(), "unit": e.key.is_unit(), "schema": e.key.is_schema_tag(),
                           "ks": e.key.span.map(|s| json!([s.start, s.end])),
                           "doc": e.doc_comment, "v": outline(&e.value, text)})
                })
                .collect();
            json!({"tag": v.tag.as_ref().map(|t| t.name.clone()), "obj": es, "s": span})
        }
        Some(Payload::Sequence(q)) => {
            json!({"tag": v.tag.as_ref().map(|t| t.name.clone()),
                   "seq": q.items.iter().map(|x| outline(x, text)).collect::<Vec<_>>(), "s": span})
        }
        Some(Payload::Scalar(s)) => {
            json!({"tag": v.tag.as_ref().map(|t| t.name.clone()), "text": s.text, "kind": format!("{:?}", s.kind), "s": span})
        }
        None => json!({"tag": v.tag.as_ref().map(|t| t.name.clone()), "s": span}),
    }
}

fn sub<'a>(v: &'a Value, path: &[J]) -> Option<&'a Value> {
    let mut c = v;
    for k in path {
        let o = c.as_object()?;
        c = &o.entries.iter().find(|e| e.key.as_str() == k.as_str())?.value;
    }
    Some(c)
}

fn answer(q: &J) -> J {
    let text = q["text"].as_str().unwrap_or("");
    match q["q"].as_str().unwrap_or("") {
        "parse" => match styx_tree::parse(text) {
            Ok(t) => {
                let cst = styx_cst::parse(text);
                let comments: Vec<String> = cst
                    .syntax()
                    .descendants_with_tokens()
                    .filter_map(|x| x.into_token())
                    .filter(|t| matches!(t.kind(), SyntaxKind::LINE_COMMENT | SyntaxKind::DOC_COMMENT))
                    .map(|t| t.text().to_string())
                    .collect();
                json!({"ok": true, "tree": h(&t), "outline": outline(&t, text), "comments": comments,
                       "errors": cst.errors().len(),
                       "diags": styx_cst::validate(&cst.syntax()).len()})
            }
            Err(e) => json!({"ok": false, "why": e.to_string(), "errors": styx_cst::parse(text).errors().len()}),
        },
        "subtree" => {
            let p = q["path"].as_array().cloned().unwrap_or_default();
            json!(styx_tree::parse(text).ok().as_ref().and_then(|t| sub(t, &p)).map(h))
        }
        "tokens" => {
            let cst = styx_cst::parse(text);
            json!(cst
                .syntax()
                .descendants_with_tokens()
                .filter_map(|x| x.into_token())
                .map(|t| json!([u32::from(t.text_range().start()), u32::from(t.text_range().end()), format!("{:?}", t.kind())]))
                .collect::<Vec<_>>())
        }
        // What a server that starts now would load.
        "config" => {
            unsafe { std::env::set_var("XDG_CONFIG_HOME", q["dir"].as_str().unwrap_or("/nonexistent")) };
            match styx_lsp::config::load_config() {
                Ok(c) => json!({"ok": true, "there": c.is_some(), "allowed": c.map(|c| c.allowed_extensions)}),
                Err(e) => json!({"ok": false, "why": e.to_string()}),
            }
        }
        "format" => {
            let indent = q["indent"].as_str().unwrap_or("  ").to_string();
            let o = styx_format::FormatOptions::default().indent(Box::leak(indent.into_boxed_str()));
            json!(styx_format::format_source(text, o))
        }
        _ => J::Null,
    }
}

pub fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    for l in std::io::stdin().lock().lines() {
        let Ok(l) = l else { return };
        let q: J = serde_json::from_str(&l).unwrap_or(J::Null);
        // Positions, sizes and depth are limited by the driver; a panic here is an answer too.
        let a = std::panic::catch_unwind(|| answer(&q)).unwrap_or_else(|_| json!({"panic": true}));
        println!("{a}");
    }
}
