//! Parser for the contract files in /verif/contracts/*.vc.
//!
//! A contract file is a sequence of `@directive` lines; text that follows a directive belongs to it
//! until the next `@` line.  `//#` lines are comments.
use std::collections::BTreeMap;

#[derive(Default, Debug, Clone)]
pub struct FnContract {
    pub key: String,
    pub ret: Option<String>,
    pub spec: String,
    pub loops: BTreeMap<usize, String>,
    pub loop_start: BTreeMap<usize, String>,
    pub loop_top: BTreeMap<usize, String>,
    pub loop_end: BTreeMap<usize, String>,
    pub loop_before: BTreeMap<usize, String>,
    pub loop_after: BTreeMap<usize, String>,
    pub closures: BTreeMap<usize, String>,
    pub entry: String,
    pub exit: String,
    pub attrs: String,
    pub locals: Vec<String>,
    pub desugar: Vec<String>,
    pub outline: Vec<(String, String)>,
    pub after_call: Vec<(String, String)>,
    pub before_call: Vec<(String, String)>,
    /// contract only, body not verified (trusted); recorded as an assumption
    pub trusted: bool,
    pub nloops: Option<usize>,
    pub nclosures: Option<usize>,
}

#[derive(Default, Debug, Clone)]
pub struct FileContract {
    pub file: String,
    pub wraps: Vec<String>,
    pub item_attrs: Vec<(String, String)>,
    pub fns: BTreeMap<String, FnContract>,
    pub append: String,
    pub prepend: String,
    pub items: BTreeMap<String, String>, // extra ghost items inside `trait X` / `impl X`
    pub outline: Vec<(String, String)>,
    pub desugar: Vec<String>,
    /// lazily initialised statics: name and the predicate their value satisfies
    pub lazies: Vec<(String, String)>,
    /// types whose derived impl of a trait is written out, so that it can carry a contract
    pub derives: Vec<(String, String)>,
}

pub fn parse(text: &str, out: &mut BTreeMap<String, FileContract>) -> Result<(), String> {
    let mut file: Option<String> = None;
    let mut cur_fn: Option<String> = None;
    let mut dir: Vec<String> = vec![];
    let mut buf = String::new();
    let mut blocks: Vec<(Vec<String>, String)> = vec![];
    for line in text.lines() {
        if line.trim_start().starts_with("//#") {
            continue;
        }
        if let Some(rest) = line.strip_prefix('@') {
            if !dir.is_empty() {
                blocks.push((dir.clone(), std::mem::take(&mut buf)));
            }
            dir = rest.trim().splitn(2, ' ').map(|s| s.trim().to_string()).collect();
        } else {
            buf.push_str(line);
            buf.push('\n');
        }
    }
    if !dir.is_empty() {
        blocks.push((dir.clone(), buf));
    }
    for (d, body) in blocks {
        let arg = d.get(1).cloned().unwrap_or_default();
        let name = d[0].as_str();
        if name == "file" {
            file = Some(arg.clone());
            cur_fn = None;
            out.entry(arg.clone()).or_insert_with(|| FileContract { file: arg, ..Default::default() });
            continue;
        }
        let f = out.get_mut(file.as_ref().ok_or("directive before @file")?).unwrap();
        match name {
            "wrap" => f.wraps.push(arg),
            "itemattr" => f.item_attrs.push((arg, body.trim().to_string())),
            "lazy" => {
                let (a, b) = arg.split_once(' ').ok_or("@lazy NAME PREDICATE")?;
                f.lazies.push((a.to_string(), b.trim().to_string()));
            }
            "derive" => {
                let (a, b) = arg.split_once(' ').ok_or("@derive TYPE TRAIT")?;
                f.derives.push((a.to_string(), b.trim().to_string()));
            }
            "append" => f.append.push_str(&body),
            "prepend" => f.prepend.push_str(&body),
            "items" => {
                f.items.entry(arg).or_default().push_str(&body);
            }
            "fn" => {
                cur_fn = Some(arg.clone());
                f.fns.insert(arg.clone(), FnContract { key: arg, ..Default::default() });
            }
            "end" => cur_fn = None,
            _ => {
                if name == "desugar" && cur_fn.is_none() {
                    f.desugar.extend(arg.split_whitespace().map(|s| s.to_string()));
                    continue;
                }
                if name == "outline" && cur_fn.is_none() {
                    f.outline.push((arg, body.trim().to_string()));
                    continue;
                }
                let c = f
                    .fns
                    .get_mut(cur_fn.as_ref().ok_or(format!("@{name} outside @fn"))?)
                    .unwrap();
                let n = || arg.parse::<usize>().map_err(|_| format!("bad index in @{name} {arg}"));
                match name {
                    "ret" => c.ret = Some(arg),
                    "spec" => c.spec.push_str(&body),
                    "attr" => {
                        c.attrs.push_str(&arg);
                        c.attrs.push('\n');
                    }
                    "loop" => {
                        c.loops.insert(n()?, body);
                    }
                    "looptop" => {
                        c.loop_top.insert(n()?, body);
                    }
                    "loopstart" => {
                        c.loop_start.insert(n()?, body);
                    }
                    "loopend" => {
                        c.loop_end.insert(n()?, body);
                    }
                    "loopbefore" => {
                        c.loop_before.insert(n()?, body);
                    }
                    "loopafter" => {
                        c.loop_after.insert(n()?, body);
                    }
                    "closure" => {
                        c.closures.insert(n()?, body);
                    }
                    "entry" => c.entry.push_str(&body),
                    "exit" => c.exit.push_str(&body),
                    "locals" => c.locals = arg.split_whitespace().map(|s| s.to_string()).collect(),
                    "desugar" => c.desugar.extend(arg.split_whitespace().map(|s| s.to_string())),
                    "outline" => c.outline.push((arg, body.trim().to_string())),
                    "aftercall" => c.after_call.push((arg, body)),
                    "beforecall" => c.before_call.push((arg, body)),
                    "trusted" => c.trusted = true,
                    "nloops" => c.nloops = Some(n()?),
                    "nclosures" => c.nclosures = Some(n()?),
                    _ => return Err(format!("unknown directive @{name}")),
                }
            }
        }
    }
    Ok(())
}
