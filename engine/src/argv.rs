//! Command lines for a definition: valid by construction, mutated, and free-form.
use crate::model::*;
use crate::spec::*;
use crate::src::Src;
use crate::types::Val;
use std::collections::HashSet;
use std::ffi::OsString;
use std::os::unix::ffi::OsStrExt;

#[derive(Clone, Debug)]
pub struct Case {
    pub argv: Vec<OsString>,
    /// The value an assignment was written from, if the line is valid by construction.
    pub expect: Option<Val>,
    pub mode: &'static str,
}

#[derive(Clone, Debug)]
pub struct Mix {
    /// Weights: valid, mutated, free-form, raw bytes.
    pub w: [u32; 4],
    pub non_utf8: u32,
    pub help: u32,
    /// Chance that an optional argument is given.
    pub give: u32,
    /// Chance to enter an optional subcommand.
    pub enter: u32,
    /// Chance that a value looks like an option, a subcommand or other trouble.
    pub nasty: u32,
}

impl Default for Mix {
    fn default() -> Self {
        Mix { w: [35, 40, 22, 3], non_utf8: 5, help: 3, give: 40, enter: 65, nasty: 25 }
    }
}

pub struct Argv<'a, 's, 'w> {
    pub m: &'a Model<'a>,
    pub s: &'s mut Src<'w>,
    pub mix: &'a Mix,
}

struct Item {
    level: usize,
    path: Vec<usize>,
    field: usize,
    raw: Option<Vec<u8>>,
    vals: Vec<Val>,
}

#[derive(Clone)]
struct PosTok {
    field: usize,
    raw: Vec<u8>,
    vals: Vec<Val>,
}

const NASTY: [&str; 42] = [
    "-",
    "--",
    "-1",
    "-12",
    "-x",
    "--foo",
    "=",
    "=v",
    "-=",
    "--=",
    "a=b",
    "-1.5",
    "-h",
    "--help",
    "\n",
    "'\"\\",
    "",
    " ",
    "\u{feff}x",
    "@file",
    "@",
    "~/x",
    "$HOME",
    "\"q\"",
    "'q'",
    " x ",
    "a\r\n",
    "\tx",
    "%s",
    "{}",
    "\\n",
    "\u{1b}[31m",
    "e\u{301}",
    "\u{212a}",
    "\u{200b}",
    "-\u{663}",
    "\u{2212}1",
    "--=",
    "---",
    "- ",
    "=-",
    "-\u{ff}",
];
const PLAIN: [&str; 14] = [
    "v",
    "b",
    "foo",
    "hello world",
    "0",
    "é",
    "名前",
    "a,b",
    "x:y",
    "🦀",
    "tt",
    "UPPER",
    "1",
    "z.txt",
];

fn bare_ok(b: &[u8]) -> bool {
    !b.starts_with(b"-") || b == b"-"
}

impl<'a, 's, 'w> Argv<'a, 's, 'w> {
    pub fn case(&mut self) -> Case {
        match self.s.weighted(&self.mix.w) {
            0 => match self.valid() {
                Some((argv, v)) => Case { argv, expect: Some(v), mode: "valid" },
                None => Case { argv: self.free(), expect: None, mode: "free" },
            },
            1 => {
                let mut argv = match self.valid() {
                    Some((argv, _)) => argv,
                    None => self.free(),
                };
                let n = 1 + self.s.weighted(&[60, 30, 10]);
                for _ in 0..n {
                    self.mutate(&mut argv);
                }
                Case { argv, expect: None, mode: "mutated" }
            }
            2 => Case { argv: self.free(), expect: None, mode: "free" },
            _ => Case { argv: self.raw(), expect: None, mode: "raw" },
        }
    }

    // ---- values ----

    /// A value for this type, valid in most cases.
    fn value(&mut self, ty: Ty) -> Vec<u8> {
        let nasty = self.s.pct(self.mix.nasty);
        if self.s.pct(12) {
            return self.random_value(ty);
        }
        let text: String = match ty {
            Ty::Str
            | Ty::Cust
            | Ty::OsStr
            | Ty::BoxOs
            | Ty::Path
            | Ty::Infal
            | Ty::Tagged
            | Ty::Dual => {
                if !matches!(ty, Ty::Str | Ty::Cust) && self.s.pct(self.mix.non_utf8 * 2) {
                    let mut v = self.bytes();
                    v.push(b't');
                    return v;
                }
                let mut t = if nasty {
                    let subs = self.sub_names();
                    if !subs.is_empty() && self.s.pct(30) {
                        self.s.pick(&subs).clone()
                    } else if self.s.pct(25) {
                        String::from_utf8_lossy(&self.option_like()).into_owned()
                    } else {
                        self.s.pick(&NASTY).to_string()
                    }
                } else {
                    self.s.pick(&PLAIN).to_string()
                };
                if ty == Ty::Tagged && !t.contains('t') {
                    t.push('t');
                }
                if ty == Ty::Dual && t.is_empty() {
                    t.push('d');
                }
                t
            }
            Ty::U8 => self.s.pick(&["7", "0", "255", "+1", "007"]).to_string(),
            Ty::I32 | Ty::I64 => self.s.pick(&["42", "-1", "0", "-42", "+5"]).to_string(),
            Ty::F64 => self.s.pick(&["1.5", "2", "-3", "-0.5", "1e9", "inf"]).to_string(),
            Ty::Char => self.s.pick(&["x", "é", "-", "=", "0", "🦀", " "]).to_string(),
            Ty::Bool => self.s.pick(&["true", "false"]).to_string(),
            Ty::Nz => self.s.pick(&["9", "1", "4294967295"]).to_string(),
            Ty::Even => self.s.pick(&["8", "0", "+2"]).to_string(),
            Ty::Venum(k) => {
                let names = self.m.spec.venums[k].names();
                self.s.pick(&names).clone()
            }
        };
        text.into_bytes()
    }

    /// Of any length and content, and of the right form for the type in most cases.
    fn random_value(&mut self, ty: Ty) -> Vec<u8> {
        let digits = |g: &mut Self, max: usize| -> String {
            let n = 1 + g.s.below(max);
            (0..n).map(|_| (b'0' + g.s.below(10) as u8) as char).collect()
        };
        let sign = *self.s.pick(&["", "", "-", "+"]);
        match ty {
            Ty::U8 => format!("{sign}{}", digits(self, 3)),
            Ty::I32 | Ty::Nz => format!("{sign}{}", digits(self, 10)),
            Ty::I64 | Ty::Even => format!("{sign}{}", digits(self, 19)),
            Ty::F64 => {
                let dot = *self.s.pick(&["", ".", "e", "e-", ".e", "E+"]);
                let tail = if self.s.pct(70) { digits(self, 3) } else { String::new() };
                format!("{sign}{}{dot}{tail}", digits(self, 6))
            }
            Ty::Bool => self.s.pick(&["true", "false", "True", "1", "yes"]).to_string(),
            Ty::Char => self.random_char().to_string(),
            Ty::Venum(k) => {
                let names = self.m.spec.venums[k].names();
                let name = self.s.pick(&names).clone();
                let mut n: Vec<char> = name.chars().collect();
                let at = self.s.below(n.len() + 1);
                match self.s.below(5) {
                    3.. => return self.lookalike(&name).into_bytes(),
                    0 => n.insert(at, self.random_char()),
                    1 if at < n.len() => {
                        n.remove(at);
                    }
                    _ if at < n.len() => n[at] = self.random_char(),
                    _ => {}
                }
                n.into_iter().collect()
            }
            Ty::Str
            | Ty::Cust
            | Ty::OsStr
            | Ty::BoxOs
            | Ty::Path
            | Ty::Infal
            | Ty::Tagged
            | Ty::Dual => {
                let n = match self.s.weighted(&[70, 25, 5]) {
                    0 => self.s.range(0, 6),
                    1 => self.s.range(7, 40),
                    _ => self.s.range(41, 400),
                };
                let mut t: String = (0..n).map(|_| self.random_char()).collect();
                if ty == Ty::Tagged {
                    t.push('t');
                }
                if !matches!(ty, Ty::Str | Ty::Cust) && self.s.pct(self.mix.non_utf8) {
                    let mut b = t.into_bytes();
                    let at = self.s.below(b.len() + 1);
                    let v = self.bytes();
                    b.splice(at..at, v);
                    return b;
                }
                t
            }
        }
        .into_bytes()
    }

    /// Text that is read as the same, by people or by a loose comparison, and is not.
    fn lookalike(&mut self, t: &str) -> String {
        let mut n: Vec<char> = t.chars().collect();
        if n.is_empty() {
            return "\u{200b}".into();
        }
        let at = self.s.below(n.len());
        // A place where something particular can be done, if there is one.
        let special = |c: &char| "ksi-åéaeo".contains(c.to_ascii_lowercase());
        let at = (0..n.len()).map(|i| (at + i) % n.len()).find(|&i| special(&n[i])).unwrap_or(at);
        let c = n[at];
        match self.s.below(9) {
            0 => n.push(
                *self.s.pick(&[' ', '\u{200b}', '\u{feff}', '\u{fe0f}', '\t', '\n', '.', '-']),
            ),
            1 => n.insert(0, *self.s.pick(&[' ', '\u{200b}', '\u{feff}', '\u{ad}', '-'])),
            2 if c.is_ascii_graphic() => {
                n[at] = char::from_u32(c as u32 - 0x21 + 0xff01).unwrap();
            }
            3 => {
                let u = if c.is_uppercase() {
                    c.to_lowercase().next()
                } else {
                    c.to_uppercase().next()
                };
                n[at] = u.unwrap();
            }
            4 => n.insert(at + 1, *self.s.pick(&['\u{301}', '\u{327}', '\u{200d}', '\u{ad}'])),
            5 => {
                return if t.chars().any(char::is_uppercase) {
                    t.to_lowercase()
                } else {
                    t.to_uppercase()
                };
            }
            6 => return t.replace('-', *self.s.pick(&["_", "", " ", "--", "\u{2010}"])),
            _ => {
                n[at] = match c {
                    'k' => '\u{212a}',
                    'K' => 'κ',
                    's' => 'ſ',
                    'i' => *self.s.pick(&['ı', 'İ', 'і']),
                    '-' => *self.s.pick(&['\u{2010}', '_', '\u{2212}', '\u{ad}']),
                    'å' => '\u{212b}',
                    'é' => {
                        n.insert(at + 1, '\u{301}');
                        'e'
                    }
                    'a' => 'а',
                    'e' => 'е',
                    'o' => 'ο',
                    c => c.to_uppercase().next().unwrap(),
                };
            }
        }
        n.into_iter().collect()
    }

    fn random_char(&mut self) -> char {
        match self.s.weighted(&[45, 25, 20, 10]) {
            0 => (b'a' + self.s.below(26) as u8) as char,
            1 => *self.s.pick(&['-', '=', ',', ' ', '0', '1', '.', '\n', '\'', 'A', 'Z', '/']),
            2 => char::from_u32(1 + self.s.below(0x7fe) as u32).unwrap(),
            _ => char::from_u32(1 + self.s.below(0x10fffe) as u32).unwrap_or('\u{fffd}'),
        }
    }

    fn invalid_value(&mut self) -> Vec<u8> {
        if self.s.pct(15) {
            return self.bytes();
        }
        self.s
            .pick(&[
                "300",
                "-1",
                "x",
                "",
                "1 ",
                "0x1",
                "7",
                "odd",
                "Tag",
                "true ",
                "0",
                "a\u{300}",
                "\u{7f}\t",
                "99999999999999999999",
            ])
            .as_bytes()
            .to_vec()
    }

    fn bytes(&mut self) -> Vec<u8> {
        let n = self.s.range(1, 4);
        (0..n)
            .map(|_| {
                *self.s.pick(&[
                    0xff,
                    b'a',
                    0x80,
                    b'=',
                    0xc3,
                    b'-',
                    0xe2,
                    b'\n',
                    0xf0,
                    b't',
                    0x00 + 1,
                ])
            })
            .collect()
    }

    /// Valid raw text for one occurrence, with the values it stands for.
    fn occ_value(&mut self, a: &Arg, ok: &dyn Fn(&[u8]) -> bool) -> Option<(Vec<u8>, Vec<Val>)> {
        for tries in 0..12 {
            let n = if a.kind.multi() && a.delim.is_some() {
                1 + self.s.weighted(&[45, 33, 14, 4, 2, 2])
            } else {
                1
            };
            let mut pieces = vec![];
            for _ in 0..n {
                let mut v = if tries > 8 {
                    simple(a.ty, self.m.spec).into_bytes()
                } else {
                    self.value(a.ty)
                };
                if a.ignore_case && self.s.pct(60) {
                    for b in &mut v {
                        if self.s.pct(50) {
                            b.make_ascii_uppercase();
                        }
                    }
                }
                pieces.push(v);
            }
            let raw = match a.delim {
                Some(d) if a.kind.multi() => pieces.join(d.to_string().as_bytes()),
                _ => pieces[0].clone(),
            };
            // Pieces may themselves contain the delimiter: take what the documentation says.
            let parts = if a.kind.multi() { split(&raw, a.delim) } else { vec![&raw[..]] };
            let vals: Result<Vec<Val>, _> = parts
                .iter()
                .map(|p| {
                    let p = if a.ignore_case { p.to_ascii_lowercase() } else { p.to_vec() };
                    self.m.conv_ty(a.ty, &p)
                })
                .collect();
            if let Ok(vals) = vals
                && ok(&raw)
            {
                return Some((raw, vals));
            }
        }
        None
    }

    // ---- valid lines ----

    fn chain(&mut self) -> (Vec<Inst>, Vec<String>) {
        let spec = self.m.spec;
        let mut levels = vec![self.m.inst(0)];
        let mut cmds = vec![];
        loop {
            let li = levels.len() - 1;
            let Some(st) = levels[li].st else { break };
            let Some((_, en, optional)) = spec.structs[st].sub() else {
                break;
            };
            if spec.enums[en].variants.is_empty() || (optional && !self.s.pct(self.mix.enter)) {
                break;
            }
            let vi = self.s.below(spec.enums[en].variants.len());
            let v = &spec.enums[en].variants[vi];
            levels[li].sub = Some((en, vi, li + 1));
            cmds.push(v.cmd());
            levels.push(match v.body.st() {
                Some(s) => self.m.inst(s),
                None => Model::unit_inst(),
            });
        }
        (levels, cmds)
    }

    fn choose(&mut self, st: usize, has_sub: bool) -> Option<Vec<usize>> {
        let s = &self.m.spec.structs[st];
        let pos = s.positionals();
        let arg = |i: usize| s.fields[i].arg().unwrap();
        let idx: Vec<usize> = s.args().map(|(i, _)| i).collect();
        let banned = |i: usize| {
            let a = arg(i);
            has_sub && (a.last || a.trailing)
        };
        let closure = |i: usize| -> HashSet<usize> {
            let mut seen = HashSet::from([i]);
            let mut todo = vec![i];
            while let Some(x) = todo.pop() {
                let a = arg(x);
                let mut next = a.requires.clone();
                if !a.named && !a.last {
                    let k = pos.iter().position(|&p| p == x).unwrap();
                    next.extend(&pos[..k]);
                }
                for y in next {
                    if seen.insert(y) {
                        todo.push(y);
                    }
                }
            }
            seen
        };
        let fine = |set: &HashSet<usize>| {
            set.iter().all(|&i| {
                !banned(i)
                    && arg(i).conflicts.iter().all(|c| !set.contains(c))
                    && (!arg(i).exclusive || (set.len() == 1 && !has_sub))
            })
        };
        let mut set: HashSet<usize> = HashSet::new();
        for &i in &idx {
            if arg(i).is_required() {
                set.extend(closure(i));
            }
        }
        if !fine(&set) {
            return None;
        }
        // Random order: later arguments get their chance against conflicts too.
        let mut order = idx.clone();
        for k in (1..order.len()).rev() {
            let j = self.s.below(k + 1);
            order.swap(k, j);
        }
        for i in order {
            if !set.contains(&i) && self.s.pct(self.mix.give) {
                let mut cand = set.clone();
                cand.extend(closure(i));
                if fine(&cand) {
                    set = cand;
                }
            }
        }
        let mut v: Vec<usize> = set.into_iter().collect();
        v.sort();
        Some(v)
    }

    fn collect(
        &mut self,
        li: usize,
        path: &mut Vec<usize>,
        inst: &Inst,
        items: &mut Vec<Item>,
        pos: &mut Vec<PosTok>,
        last_level: bool,
    ) -> Option<()> {
        let st = inst.st?;
        let s = &self.m.spec.structs[st];
        let given = self.choose(st, inst.sub.is_some())?;
        for &f in &given {
            let a = s.fields[f].arg().unwrap();
            if !a.named {
                continue;
            }
            let n = match a.kind.multi() {
                true if self.s.pct(1) => self.s.range(9, 40),
                true => 1 + self.s.weighted(&[50, 29, 14, 4, 2, 1]),
                false => 1,
            };
            for _ in 0..n {
                let (raw, vals) = match a.kind {
                    Kind::Bool => (None, vec![]),
                    Kind::OptOpt if self.s.pct(40) => (None, vec![]),
                    _ => {
                        let (r, v) = self.occ_value(a, &|_| true)?;
                        (Some(r), v)
                    }
                };
                items.push(Item { level: li, path: path.clone(), field: f, raw, vals });
            }
        }
        let subs: Vec<Vec<u8>> = match s.sub() {
            Some((_, en, _)) => {
                self.m.spec.enums[en].variants.iter().map(|v| v.cmd().into_bytes()).collect()
            }
            None => vec![],
        };
        let ps = s.positionals();
        let has_last = ps.last().is_some_and(|&f| s.fields[f].arg().unwrap().last);
        for f in ps {
            if !given.contains(&f) {
                continue;
            }
            let a = s.fields[f].arg().unwrap();
            let n = match a.kind.multi() {
                true if self.s.pct(1) => self.s.range(9, 40),
                true => 1 + self.s.weighted(&[40, 30, 16, 8, 4, 2]),
                false => 1,
            };
            for k in 0..n {
                let verbatim = a.last || (a.trailing && k > 0);
                let free = verbatim || (last_level && !has_last && self.s.pct(60));
                let (raw, vals) =
                    self.occ_value(a, &|b| free || (bare_ok(b) && !subs.iter().any(|s| s == b)))?;
                pos.push(PosTok { field: f, raw, vals });
            }
        }
        for (k, (_, fi)) in inst.flats.iter().enumerate() {
            path.push(k);
            self.collect(li, path, fi, items, pos, last_level)?;
            path.pop();
        }
        Some(())
    }

    pub fn arg0(&mut self) -> OsString {
        match self.s.weighted(&[80, 8, 6, 3, 3]) {
            0 => "prog".into(),
            1 => "/usr/bin/my-prog".into(),
            2 => "./dir/größe".into(),
            3 => "".into(),
            _ => "--".into(),
        }
    }

    /// A line written from an assignment, and the value it must yield.
    pub fn valid(&mut self) -> Option<(Vec<OsString>, Val)> {
        let m = self.m;
        let arg0 = self.arg0();
        let (mut levels, cmds) = self.chain();
        let n = levels.len();
        let mut items: Vec<Item> = vec![];
        let mut poss: Vec<Vec<PosTok>> = vec![];
        for li in 0..n {
            let mut pos = vec![];
            if levels[li].st.is_some() {
                let inst = levels[li].clone();
                self.collect(li, &mut vec![], &inst, &mut items, &mut pos, li + 1 == n)?;
            }
            poss.push(pos);
        }
        // Where each occurrence goes: its own level, or a deeper one if global.
        let mut at: Vec<Vec<(Item, Vec<Nm2>)>> = (0..n).map(|_| vec![]).collect();
        for it in items {
            let a = self.arg_at(&levels, &it);
            let to = if a.global && it.level + 1 < n && self.s.pct(60) {
                self.s.range(it.level, n - 1)
            } else {
                it.level
            };
            let mut done = None;
            for l in [to, it.level] {
                let names = self.names(&levels[..=l], &it, a);
                if !names.is_empty() {
                    done = Some((l, names));
                    break;
                }
            }
            let (l, names) = done?;
            at[l].push((it, names));
        }
        let mut out: Vec<OsString> = vec![arg0];
        for li in 0..n {
            if li > 0 {
                out.push(cmds[li - 1].clone().into());
            }
            let named = std::mem::take(&mut at[li]);
            let pos = std::mem::take(&mut poss[li]);
            let st = levels[li].st;
            let subs: Vec<String> = match st.and_then(|st| m.spec.structs[st].sub()) {
                Some((_, en, _)) => m.spec.enums[en].variants.iter().map(|v| v.cmd()).collect(),
                None => vec![],
            };
            let arg = |f: usize| m.spec.structs[st.unwrap()].fields[f].arg().unwrap();
            // Where `--` goes, if anywhere.
            let first_last = pos.iter().position(|p| arg(p.field).last);
            let first_greedy = pos.iter().position(|p| arg(p.field).trailing);
            if first_last.is_some() && first_greedy.is_some() {
                // The trailing one takes everything.
                return None;
            }
            let mut limit = pos.len();
            if let Some(k) = pos.iter().enumerate().position(|(k, p)| {
                let verbatim = first_greedy.is_some_and(|g| k > g);
                !verbatim && (!bare_ok(&p.raw) || subs.iter().any(|s| s.as_bytes() == p.raw))
            }) {
                limit = k;
            }
            if let Some(k) = first_last {
                limit = limit.min(k);
            }
            let must = limit < pos.len();
            let has_last = st.is_some_and(|st| m.spec.structs[st].args().any(|(_, a)| a.last));
            let end = li + 1 == n;
            if must && !end {
                return None;
            }
            let cut = if must {
                if has_last {
                    if Some(limit) != first_last {
                        return None;
                    }
                    Some(limit)
                } else {
                    Some(if self.s.pct(30) { self.s.below(limit + 1) } else { limit })
                }
            } else if end && self.s.pct(25) {
                if has_last {
                    Some(pos.len())
                } else {
                    let top = first_greedy.map_or(pos.len(), |g| g);
                    Some(self.s.below(top + 1))
                }
            } else {
                None
            };
            // Greedy tokens end the part where options can go.
            let pre_end = cut.unwrap_or(pos.len()).min(first_greedy.unwrap_or(usize::MAX));
            // A merge of the named occurrences and the first positionals.
            let mut order: Vec<usize> = (0..named.len()).collect();
            for k in (1..order.len()).rev() {
                let j = self.s.below(k + 1);
                order.swap(k, j);
            }
            if self.s.pct(40) {
                // Flags next to each other, so that they can be written as one bundle.
                order.sort_by_key(|&i| {
                    let (it, names) = &named[i];
                    let short = names.iter().any(|n| matches!(n, Nm2::Short(_)));
                    (!short, self.arg_at(&levels, it).kind != Kind::Bool)
                });
            }
            let mut named: Vec<Option<(Item, Vec<Nm2>)>> = named.into_iter().map(Some).collect();
            let mut p = 0;
            let mut q = 0;
            let mut open = false;
            while p < pre_end || q < order.len() {
                let take_pos = p < pre_end && (q >= order.len() || self.s.pct(40));
                if take_pos {
                    out.push(os(&pos[p].raw));
                    self.put_pos(&mut levels, li, &pos[p]);
                    p += 1;
                    open = false;
                } else {
                    let (it, names) = named[order[q]].take().unwrap();
                    q += 1;
                    self.write(&levels, &it, &names, &mut out, &mut open);
                    self.put(&mut levels, &it);
                }
            }
            let mut k = pre_end;
            if let Some(c) = cut {
                if c <= pre_end {
                    out.push("--".into());
                    for t in &pos[k..] {
                        out.push(os(&t.raw));
                        self.put_pos(&mut levels, li, t);
                    }
                    k = pos.len();
                }
            }
            // Verbatim tokens of a trailing argument.
            for t in &pos[k..] {
                out.push(os(&t.raw));
                self.put_pos(&mut levels, li, t);
            }
        }
        let mut errs = vec![];
        let v = m.finish(&levels, 0, &mut errs, &mut Trace::default());
        if !errs.is_empty() {
            return None;
        }
        Some((out, v))
    }

    fn arg_at(&self, levels: &[Inst], it: &Item) -> &'a Arg {
        let mut inst = &levels[it.level];
        for &k in &it.path {
            inst = &inst.flats[k].1;
        }
        self.m.spec.structs[inst.st.unwrap()].fields[it.field].arg().unwrap()
    }

    /// The names under which the argument is reachable from the innermost of `levels`.
    fn names(&self, levels: &[Inst], it: &Item, a: &Arg) -> Vec<Nm2> {
        let mut out = vec![];
        let mut ev = 0;
        for c in a.shorts() {
            if self.m.lookup(levels, &Nm::Short(c), &mut ev)
                == Some((it.level, it.path.clone(), it.field))
            {
                out.push(Nm2::Short(c));
            }
        }
        for l in a.longs() {
            if self.m.lookup(levels, &Nm::Long(l.as_bytes()), &mut ev)
                == Some((it.level, it.path.clone(), it.field))
            {
                out.push(Nm2::Long(l));
            }
        }
        out
    }

    fn write(
        &mut self,
        levels: &[Inst],
        it: &Item,
        names: &[Nm2],
        out: &mut Vec<OsString>,
        open: &mut bool,
    ) {
        let a = self.arg_at(levels, it);
        let mut name = self.s.pick(names).clone();
        if *open
            && let Some(short) = names.iter().find(|n| matches!(n, Nm2::Short(_)))
            && self.s.pct(70)
        {
            name = short.clone();
        }
        let sep_ok = |v: &[u8]| {
            !a.req_eq
                && (bare_ok(v)
                    || match a.hyphen {
                        Hyphen::No => false,
                        Hyphen::Any => true,
                        Hyphen::Num => v[1..].iter().all(u8::is_ascii_digit),
                    })
        };
        let mut next = None;
        let mut tok: Vec<u8> = match &name {
            Nm2::Long(l) => format!("--{l}").into_bytes(),
            Nm2::Short(c) => {
                if *open && self.s.pct(75) {
                    let mut t = out.pop().unwrap().as_bytes().to_vec();
                    t.extend(c.to_string().bytes());
                    t
                } else {
                    format!("-{c}").into_bytes()
                }
            }
        };
        *open = matches!(name, Nm2::Short(_)) && a.kind == Kind::Bool;
        if let Some(v) = &it.raw {
            // 0: `=`, 1: separate, 2: attached.
            let mut forms = vec![0];
            if sep_ok(v) {
                forms.push(1);
            }
            if matches!(name, Nm2::Short(_)) && !a.req_eq && !v.is_empty() && v[0] != b'=' {
                forms.push(2);
            }
            match *self.s.pick(&forms) {
                0 => {
                    tok.push(b'=');
                    tok.extend(v);
                }
                1 => next = Some(os(v)),
                _ => tok.extend(v),
            }
        }
        out.push(os(&tok));
        out.extend(next);
    }

    fn put(&self, levels: &mut [Inst], it: &Item) {
        let kind = self.arg_at(levels, it).kind;
        let mut inst = &mut levels[it.level];
        for &k in &it.path {
            inst = &mut inst.flats[k].1;
        }
        put_slot(&mut inst.slots[it.field], kind, it.raw.is_some(), &it.vals);
    }

    fn put_pos(&self, levels: &mut [Inst], li: usize, t: &PosTok) {
        let inst = &mut levels[li];
        let kind = self.m.spec.structs[inst.st.unwrap()].fields[t.field].arg().unwrap().kind;
        put_slot(&mut inst.slots[t.field], kind, true, &t.vals);
    }

    // ---- mutated and free-form lines ----

    fn sub_names(&self) -> Vec<String> {
        self.m.spec.enums.iter().flat_map(|e| e.variants.iter().map(|v| v.cmd())).collect()
    }

    fn any_arg(&mut self) -> Option<&'a Arg> {
        let all: Vec<&Arg> = self
            .m
            .spec
            .structs
            .iter()
            .flat_map(|s| s.fields.iter().filter_map(|f| f.arg()))
            .filter(|a| a.named)
            .collect();
        if all.is_empty() {
            return None;
        }
        Some(all[self.s.below(all.len())])
    }

    /// A token that looks like an option of this definition.
    fn option_like(&mut self) -> Vec<u8> {
        let Some(a) = self.any_arg() else {
            return self.s.pick(&["--nope", "-q", "--"]).as_bytes().to_vec();
        };
        let longs = a.longs();
        let shorts = a.shorts();
        let use_long = !longs.is_empty() && (shorts.is_empty() || self.s.pct(50));
        let mut t = if use_long {
            let mut l = self.s.pick(&longs).clone();
            // Lookalikes.
            match self.s.weighted(&[82, 3, 3, 3, 3, 3, 3]) {
                1 => {
                    l.pop();
                }
                2 => l.push('s'),
                3 => l = l.to_uppercase(),
                4 => l = l.replace('-', "_"),
                5 => l = l.chars().skip(1).collect(),
                6 => l.insert(0, '-'),
                _ => {}
            }
            format!("--{l}").into_bytes()
        } else {
            let mut t = b"-".to_vec();
            let n = self.s.weighted(&[70, 20, 10]);
            for _ in 0..n {
                // A bundle of anything.
                if let Some(b) = self.any_arg() {
                    if let Some(c) = b.shorts().first() {
                        t.extend(c.to_string().bytes());
                    }
                }
            }
            let c = *self.s.pick(&shorts);
            t.extend(c.to_string().bytes());
            t
        };
        match self.s.weighted(&[55, 25, 12, 8]) {
            1 => {
                t.push(b'=');
                let v = if self.s.pct(80) { self.value(a.ty) } else { self.invalid_value() };
                t.extend(v);
            }
            2 => {
                if !use_long {
                    let v = self.value(a.ty);
                    t.extend(v);
                }
            }
            3 => t.push(b'='),
            _ => {}
        }
        if self.s.pct(self.mix.non_utf8) {
            let b = self.bytes();
            t.extend(b);
        }
        t
    }

    fn token(&mut self) -> Vec<u8> {
        if self.s.pct(self.mix.help) {
            return self.s.pick(&["-h", "--help", "--help=x", "-hx"]).as_bytes().to_vec();
        }
        let subs = self.sub_names();
        match self.s.weighted(&[34, 18, 14, 8, 6, 14, 6]) {
            0 => self.option_like(),
            1 => {
                if let Some(a) = self.any_arg() {
                    self.value(a.ty)
                } else {
                    b"v".to_vec()
                }
            }
            2 if !subs.is_empty() => {
                let mut n = self.s.pick(&subs).clone();
                match self.s.weighted(&[85, 4, 4, 4, 3]) {
                    1 => {
                        n.pop();
                    }
                    2 => n.push('s'),
                    3 => n = n.to_uppercase(),
                    4 => n = n.replace('-', "_"),
                    _ => {}
                }
                n.into_bytes()
            }
            3 => self.s.pick(&NASTY).as_bytes().to_vec(),
            4 => b"--".to_vec(),
            5 => self.s.pick(&PLAIN).as_bytes().to_vec(),
            6 => self.invalid_value(),
            _ => self.s.pick(&PLAIN).as_bytes().to_vec(),
        }
    }

    /// A request for the help of some level.
    pub fn help_case(&mut self) -> Case {
        let mut argv = vec![self.arg0()];
        let (_, cmds) = self.chain();
        argv.extend(cmds.into_iter().map(OsString::from));
        if self.s.pct(8) {
            let t = self.token();
            argv.push(os(&t));
        }
        argv.push(if self.s.pct(50) { "-h".into() } else { "--help".into() });
        Case { argv, expect: None, mode: "help" }
    }

    fn free(&mut self) -> Vec<OsString> {
        let mut out = vec![self.arg0()];
        // Start inside the command tree half of the time.
        if self.s.pct(50) {
            let (_, cmds) = self.chain();
            for c in cmds {
                if self.s.pct(50) {
                    let t = self.token();
                    out.push(os(&t));
                }
                out.push(c.into());
            }
        }
        let n = self.s.weighted(&[5, 15, 20, 20, 15, 10, 8, 7]);
        for _ in 0..n {
            if self.s.pct(25) {
                self.occurrence(&mut out);
                continue;
            }
            let t = self.token();
            out.push(os(&t));
        }
        out
    }

    /// A named argument and something for its value.
    fn occurrence(&mut self, out: &mut Vec<OsString>) {
        let Some(a) = self.any_arg() else { return };
        let mut names: Vec<String> = a.longs().into_iter().map(|l| format!("--{l}")).collect();
        names.extend(a.shorts().into_iter().map(|c| format!("-{c}")));
        if !a.named || names.is_empty() {
            let v = self.value(a.ty);
            out.push(os(&v));
            return;
        }
        let name = self.s.pick(&names).clone().into_bytes();
        let v = match self.s.weighted(&[50, 20, 15, 15]) {
            0 => self.value(a.ty),
            1 => self.option_like(),
            2 => self.s.pick(&NASTY).as_bytes().to_vec(),
            _ => self.invalid_value(),
        };
        match self.s.weighted(&[60, 20, 20]) {
            0 => {
                out.push(os(&name));
                out.push(os(&v));
            }
            1 => out.push(os(&[&name[..], b"=", &v].concat())),
            _ if !name.starts_with(b"--") => out.push(os(&[&name[..], &v].concat())),
            _ => out.push(os(&name)),
        }
    }

    fn raw(&mut self) -> Vec<OsString> {
        let n = self.s.weighted(&[5, 20, 30, 20, 25]);
        (0..n)
            .map(|_| {
                if self.s.pct(3) {
                    return os(&self.long(b""));
                }
                let k = self.s.weighted(&[10, 20, 20, 20, 15, 15]);
                let b: Vec<u8> = (0..k)
                    .map(|_| {
                        *self.s.pick(&[
                            b'-', b'a', b'=', b'b', 0xff, 0xc3, 0xa9, b'h', 0x01, b'\n', b' ',
                        ])
                    })
                    .collect();
                os(&b)
            })
            .collect()
    }

    /// Very long, and not always one byte per character.
    fn long(&mut self, start: &[u8]) -> Vec<u8> {
        let mut b = start.to_vec();
        b.extend(&b"xyz"[..self.s.below(4)]);
        let c: &[u8] = match self.s.below(9) {
            0 => b"x",
            1 => b"1",
            2 => b"-",
            3 => b"\xff",
            4 => b"a=",
            5 => "é".as_bytes(),
            6 => "€".as_bytes(),
            7 => "👍".as_bytes(),
            _ => b"\xc3",
        };
        let n = *self.s.pick(&[200, 255, 256, 1000, 4096, 5000, 70_000]);
        b.extend(std::iter::repeat_n(c, n / c.len() + 1).flatten());
        b
    }

    fn mutate(&mut self, argv: &mut Vec<OsString>) {
        let n = argv.len();
        let at = if n > 1 { 1 + self.s.below(n - 1) } else { n };
        match self.s.weighted(&[16, 14, 12, 20, 8, 10, 8, 4, 4, 4, 2]) {
            0 if at < n => {
                argv.remove(at);
            }
            1 if at < n => {
                // Repeat an argument (with its neighbour) somewhere.
                let k = self.s.range(1, 2).min(n - at);
                let part: Vec<OsString> = argv[at..at + k].to_vec();
                let to = 1 + self.s.below(n);
                for (j, p) in part.into_iter().enumerate() {
                    argv.insert((to + j).min(argv.len()), p);
                }
            }
            2 if at < n => {
                let b = 1 + self.s.below(n - 1);
                argv.swap(at, b);
            }
            3 => {
                let t = self.token();
                argv.insert(at.min(n), os(&t));
            }
            4 if at < n => argv.truncate(at),
            5 if at < n => {
                // Break a value or a name.
                let mut b = argv[at].as_bytes().to_vec();
                if let Some(p) = b.iter().position(|&c| c == b'=') {
                    match self.s.below(3) {
                        0 => {
                            b.truncate(p + 1);
                            let v = self.invalid_value();
                            b.extend(v);
                        }
                        1 => {
                            b.remove(p);
                        }
                        _ => b.truncate(p),
                    }
                } else if let (Ok(t), true) = (str::from_utf8(&b), self.s.pct(25)) {
                    b = self.lookalike(t).into_bytes();
                } else if b.starts_with(b"-") && b.len() > 1 {
                    match self.s.below(4) {
                        0 => {
                            b.pop();
                        }
                        1 => b.extend(b"=v"),
                        2 => {
                            b.remove(0);
                        }
                        _ => b.insert(0, b'-'),
                    }
                } else {
                    b = self.invalid_value();
                }
                argv[at] = os(&b);
            }
            6 => {
                let t = self.option_like();
                argv.insert(at.min(n), os(&t));
            }
            7 => argv.insert(at.min(n), "--".into()),
            8 if at < n => {
                let mut b = argv[at].as_bytes().to_vec();
                let p = self.s.below(b.len() + 1);
                let v = self.bytes();
                b.splice(p..p, v);
                argv[at] = os(&b);
            }
            9 if at < n => {
                let t = self.token();
                argv[at] = os(&t);
            }
            10 if at < n => {
                let b = self.long(argv[at].as_bytes());
                argv[at] = os(&b);
            }
            _ => {
                let t = self.token();
                argv.push(os(&t));
            }
        }
    }
}

#[derive(Clone, Debug)]
pub enum Nm2 {
    Long(String),
    Short(char),
}

fn put_slot(slot: &mut Slot, kind: Kind, has: bool, vals: &[Val]) {
    match kind {
        Kind::Bool => *slot = Slot::Flag,
        Kind::Value | Kind::Opt => *slot = Slot::One(vals[0].clone()),
        Kind::OptOpt => *slot = Slot::OptVal(if has { Some(vals[0].clone()) } else { None }),
        Kind::Vec | Kind::OptVec => {
            if let Slot::Many(v) = slot {
                v.extend(vals.iter().cloned());
            } else {
                *slot = Slot::Many(vals.to_vec());
            }
        }
    }
}

/// An unremarkable valid value.
pub fn simple(ty: Ty, spec: &Spec) -> String {
    match ty {
        Ty::U8 | Ty::I32 | Ty::I64 | Ty::F64 | Ty::Nz => "7".into(),
        Ty::Even => "8".into(),
        Ty::Char => "b".into(),
        Ty::Bool => "true".into(),
        Ty::Tagged => "t".into(),
        Ty::Venum(k) => {
            // The plainest of the names.
            let mut n = spec.venums[k].names();
            n.sort_by_key(|x| (!x.bytes().all(|b| b.is_ascii_alphabetic()), x.len()));
            n[0].clone()
        }
        _ => "b".into(),
    }
}
