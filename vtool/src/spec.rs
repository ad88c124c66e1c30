//! Parser of the contract files (/verif/specs/*.vspec).
use std::collections::BTreeMap;

#[derive(Clone, Debug, Default)]
pub struct FnSpec {
    pub key: String,
    pub opts: BTreeMap<String, String>,
    pub contract: String,
    pub ret: String,
    pub loops: BTreeMap<usize, String>,
    pub hints: Vec<(String, String)>,
    pub file_line: usize,
}

#[derive(Clone, Debug, Default)]
pub struct ModSpec {
    pub module: String,
    pub file: String,
    pub deps: Vec<String>,
    pub mem: String,
    pub prelude: String,
    pub postlude: String,
    pub fns: Vec<FnSpec>,
    pub ext: Vec<(String, String)>,
    pub maps: Vec<(String, String)>,
    pub alias: Vec<(String, String)>,
    pub cmp: Vec<(String, Vec<String>)>,
    pub fields: Vec<(String, String)>,
    pub skip: Vec<String>,
    pub structs: BTreeMap<String, String>,
    pub keeptraits: Vec<String>,
    pub opts: Vec<String>,
    pub implextra: BTreeMap<String, String>,
    pub assoc: Vec<String>,
    pub bounds: Vec<(String, String)>,
}

/// `//@foreach A B` ... `//@endfor`: repeat the block with `$T` replaced.
/// `//@foreach A|x B|y`: `$T` and `$U` replaced.
fn expand(text: &str) -> String {
    let mut out = String::new();
    let mut block: Option<(Vec<String>, String)> = None;
    for l in text.lines() {
        if let Some(r) = l.strip_prefix("//@foreach ") {
            block = Some((r.split_whitespace().map(String::from).collect(), String::new()));
            continue;
        }
        if l.trim_end() == "//@endfor" {
            let (v, b) = block.take().expect("endfor");
            for x in v {
                let mut t = b.clone();
                let parts: Vec<&str> = x.split('|').collect();
                for (i, p) in parts.iter().enumerate() {
                    t = t.replace(["$T", "$U", "$V", "$W"][i], p);
                }
                out.push_str(&t);
            }
            continue;
        }
        match &mut block {
            Some((_, b)) => { b.push_str(l); b.push('\n'); }
            None => { out.push_str(l); out.push('\n'); }
        }
    }
    out
}

pub fn parse(text: &str, fname: &str) -> ModSpec {
    let text = &expand(text);
    let mut m = ModSpec { mem: "none".into(), ..Default::default() };
    enum Cur { None, Prelude, Postlude, Contract, Loop(usize), Hint, Extra(String) }
    let mut cur = Cur::None;
    for (ln, line) in text.lines().enumerate() {
        if let Some(d) = line.strip_prefix("//@") {
            let d = d.trim_end();
            let (w, rest) = match d.find(' ') { Some(i) => (&d[..i], d[i + 1..].trim()), None => (d, "") };
            match w {
                "module" => m.module = rest.into(),
                "file" => m.file = rest.into(),
                "deps" => m.deps.extend(rest.split_whitespace().map(String::from)),
                "mem" => m.mem = rest.into(),
                "prelude" => cur = Cur::Prelude,
                "postlude" => cur = Cur::Postlude,
                "end" => cur = Cur::None,
                "ext" => { let v: Vec<_> = rest.split_whitespace().collect(); m.ext.push((v[0].into(), v[1].into())); }
                "map" => { let v: Vec<_> = rest.split_whitespace().collect(); m.maps.push((v[0].into(), v[1].into())); }
                "alias" => { let v: Vec<_> = rest.split_whitespace().collect(); m.alias.push((v[0].into(), v[1].into())); }
                "cmp" => { let v: Vec<_> = rest.split_whitespace().map(String::from).collect(); m.cmp.push((v[0].clone(), v[1..].to_vec())); }
                "bound" => { let (a, b) = rest.split_once(' ').unwrap(); m.bounds.push((a.into(), b.into())); }
                "field" => { let (a, b) = rest.split_once(' ').unwrap(); m.fields.push((a.into(), b.into())); }
                "skip" => m.skip.extend(rest.split_whitespace().map(String::from)),
                "struct" => { let (a, b) = rest.split_once(' ').unwrap_or((rest, "")); m.structs.insert(a.into(), b.into()); }
                "keeptrait" => m.keeptraits.extend(rest.split_whitespace().map(String::from)),
                "opt" => m.opts.extend(rest.split_whitespace().map(String::from)),
                "fn" => {
                    let mut it = rest.split_whitespace();
                    let key = it.next().unwrap().to_string();
                    let mut f = FnSpec { key, ret: "r".into(), file_line: ln + 1, ..Default::default() };
                    for o in it {
                        let (a, b) = o.split_once('=').unwrap_or((o, "1"));
                        f.opts.insert(a.into(), b.into());
                    }
                    m.fns.push(f);
                    cur = Cur::Contract;
                }
                "ret" => m.fns.last_mut().unwrap().ret = rest.into(),
                "loop" => {
                    let k: usize = rest.parse().unwrap();
                    m.fns.last_mut().unwrap().loops.insert(k, String::new());
                    cur = Cur::Loop(k);
                }
                "hint" => { m.fns.last_mut().unwrap().hints.push((rest.into(), String::new())); cur = Cur::Hint; }
                "assoc" => m.assoc.extend(rest.split_whitespace().map(String::from)),
                "implextra" => { m.implextra.insert(rest.into(), String::new()); cur = Cur::Extra(rest.into()); }
                "#" => {}
                _ => panic!("{}:{}: unknown directive {}", fname, ln + 1, w),
            }
            continue;
        }
        let l = format!("{}\n", line);
        match &cur {
            Cur::None => {}
            Cur::Extra(k) => m.implextra.get_mut(k).unwrap().push_str(&l),
            Cur::Prelude => m.prelude.push_str(&l),
            Cur::Postlude => m.postlude.push_str(&l),
            Cur::Contract => m.fns.last_mut().unwrap().contract.push_str(&l),
            Cur::Loop(k) => m.fns.last_mut().unwrap().loops.get_mut(k).unwrap().push_str(&l),
            Cur::Hint => m.fns.last_mut().unwrap().hints.last_mut().unwrap().1.push_str(&l),
        }
    }
    m
}
