//! C14: what the viewer shows, against what the bytes mean. The expectation comes from the schema
//! model and the bytes alone; the viewer is driven by keys only.
use crate::{
    session::{self, components, key, pointer, Ev, K},
    term::*,
    world::*,
};
use planus_buffer_inspection::{object_mapping::Line, InspectableFlatbuffer};
use planus_inspector::{ui, ui::{FoldState, TreeStateLine}, ActiveWindow, Inspector, ModalState};
use ratatui::{buffer::Buffer, style::Modifier, Terminal};
use serde::{Deserialize, Serialize};
use simcore::{rng::Rng, schema::*};
use simdrv::{hash_of, viol, Check, Stats, Viol};
use simrt::hist::guarded;
use std::collections::{BTreeMap, HashSet};

// ---- what is in the buffer ----------------------------------------------------------------------
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
enum Root {
    Offset,
    VTable(usize, usize),
    Table(usize, usize),
    Str(usize),
    Vector(Ty, usize),
    Tags(usize, usize),
    Values(usize, usize, usize),
    Struct(usize, usize),
}
impl Root {
    fn pos(&self) -> usize {
        match self {
            Root::Offset => 0,
            Root::VTable(_, p) | Root::Table(_, p) | Root::Str(p) | Root::Vector(_, p) | Root::Tags(_, p) | Root::Values(_, _, p) | Root::Struct(_, p) => *p,
        }
    }
}
#[derive(Clone, PartialEq, Debug)]
enum Tx {
    Lit(String),
    F32(u32),
    F64(u64),
    /// a vector; the element type is shown by name if it has one
    Vector(Option<String>, usize),
    /// a variant of a union; the name of one without a name in the schema is planus's choice but for its letters
    Variant(String, String),
    /// the tag of this union says that there is no value
    NoVariant(usize),
}
#[derive(Clone, Debug)]
struct Node {
    name: Option<String>,
    tx: Tx,
    range: (usize, usize),
    kids: Vec<Node>,
    to: Option<Root>,
}
/// One expected line.
#[derive(Clone, Debug)]
struct XLine {
    depth: usize,
    name: Option<String>,
    tx: Option<Tx>,
    opens: bool,
    range: (usize, usize),
    to: Option<Root>,
}
struct XRoot {
    root: Root,
    /// more objects that cannot be told from this one by what is shown of them
    also: Vec<Root>,
    lines: Vec<XLine>,
    range: (usize, usize),
    tree: Node,
}
struct Parse<'a> {
    s: &'a Schema,
    b: &'a [u8],
    seen: HashSet<Root>,
    todo: Vec<Root>,
}
impl Parse<'_> {
    fn u16(&self, p: usize) -> usize {
        u16::from_le_bytes(self.b[p..p + 2].try_into().unwrap()) as usize
    }
    fn u32(&self, p: usize) -> usize {
        u32::from_le_bytes(self.b[p..p + 4].try_into().unwrap()) as usize
    }
    fn string(&self, q: usize) -> String {
        let n = self.u32(q);
        format!("{:?} (len={n})", String::from_utf8_lossy(&self.b[q + 4..q + 4 + n]))
    }
    fn elem_name(&self, t: &Ty) -> Option<String> {
        match t {
            Ty::Table(i) => Some(self.s.tables[*i].name.clone()),
            Ty::Struct(i) => Some(self.s.structs[*i].name.clone()),
            Ty::Enum(i) => Some(self.s.enums[*i].name.clone()),
            Ty::Union(i) => Some(self.s.unions[*i].name.clone()),
            _ => None,
        }
    }
    /// how an object that something leads to is called
    fn title(&self, r: &Root) -> Tx {
        match r {
            Root::Offset => unreachable!(),
            Root::VTable(t, _) => Tx::Lit(format!("vtable {}", self.s.tables[*t].name)),
            Root::Table(t, _) => Tx::Lit(self.s.tables[*t].name.clone()),
            Root::Str(q) => Tx::Lit(self.string(*q)),
            Root::Vector(t, q) => Tx::Vector(self.elem_name(t), self.u32(*q)),
            Root::Tags(u, q) => Tx::Vector(Some(self.s.unions[*u].name.clone()), self.u32(*q)),
            Root::Values(u, _, q) => Tx::Vector(Some(self.s.unions[*u].name.clone()), self.u32(*q)),
            Root::Struct(t, _) => Tx::Lit(self.s.structs[*t].name.clone()),
        }
    }
    fn link(&mut self, name: Option<String>, p: usize, to: Root) -> Node {
        if self.seen.insert(to.clone()) {
            self.todo.push(to.clone());
        }
        Node { name, tx: self.title(&to), range: (p, p + 4), kids: vec![], to: Some(to) }
    }
    fn leaf(&self, name: Option<String>, tx: Tx, p: usize, n: usize) -> Node {
        Node { name, tx, range: (p, p + n), kids: vec![], to: None }
    }
    fn int(&self, name: &str, i: Int, p: usize) -> Node {
        self.leaf(Some(name.into()), Tx::Lit(i.decode(&self.b[p..p + i.size()]).to_string()), p, i.size())
    }
    fn inline(&mut self, name: Option<String>, ty: &Ty, p: usize) -> Node {
        let s = self.s;
        match ty {
            Ty::Bool => self.leaf(name, Tx::Lit((self.b[p] != 0).to_string()), p, 1),
            Ty::Int(i) => self.leaf(name, Tx::Lit(i.decode(&self.b[p..p + i.size()]).to_string()), p, i.size()),
            Ty::F32 => self.leaf(name, Tx::F32(self.u32(p) as u32), p, 4),
            Ty::F64 => self.leaf(name, Tx::F64(u64::from_le_bytes(self.b[p..p + 8].try_into().unwrap())), p, 8),
            Ty::Enum(e) => {
                let e = &s.enums[*e];
                let v = e.base.decode(&self.b[p..p + e.base.size()]);
                let t = match e.variants.iter().find(|x| x.1 == v) {
                    Some((n, _)) => format!("{}::{n}", e.name),
                    None => format!("{}::UnknownTag({v})", e.name),
                };
                self.leaf(name, Tx::Lit(t), p, e.base.size())
            }
            Ty::Struct(i) => {
                let (n, tx) = (s.size_align(ty).0, Tx::Lit(s.structs[*i].name.clone()));
                let offs = s.struct_layout(*i).2;
                let kids = s.structs[*i].fields.iter().zip(offs).map(|(f, o)| self.inline(Some(f.0.clone()), &f.1, p + o)).collect();
                Node { name, tx, range: (p, p + n), kids, to: None }
            }
            Ty::Str => {
                let q = p + self.u32(p);
                self.link(name, p, Root::Str(q))
            }
            Ty::Table(t) => {
                let q = p + self.u32(p);
                self.link(name, p, Root::Table(*t, q))
            }
            Ty::Vec(e) => {
                let q = p + self.u32(p);
                self.link(name, p, Root::Vector((**e).clone(), q))
            }
            Ty::Union(_) => unreachable!(),
        }
    }
    fn tag(&self, name: String, u: usize, p: usize) -> Node {
        let un = &self.s.unions[u];
        let tx = match un.variants.get((self.b[p] as usize).wrapping_sub(1)) {
            Some((n, _)) => Tx::Variant(un.name.clone(), n.clone()),
            None => Tx::NoVariant(u),
        };
        self.leaf(Some(name), tx, p, 1)
    }
    fn union(&mut self, name: String, u: usize, tag: u8, p: usize) -> Node {
        let un = &self.s.unions[u];
        let (n, ty) = &un.variants[tag as usize - 1];
        let q = p + self.u32(p);
        let to = match ty {
            Ty::Table(t) => Root::Table(*t, q),
            Ty::Str => Root::Str(q),
            Ty::Struct(t) => Root::Struct(*t, q),
            _ => unreachable!(),
        };
        let kid = self.link(None, p, to);
        Node { name: Some(name), tx: Tx::Variant(un.name.clone(), n.clone()), range: (p, p + 4), kids: vec![kid], to: None }
    }
    fn root(&mut self, r: &Root) -> Node {
        let s = self.s;
        let mut n = Node { name: None, tx: Tx::Lit(String::new()), range: (r.pos(), r.pos()), kids: vec![], to: None };
        match r {
            Root::Offset => unreachable!(),
            Root::VTable(t, p) => {
                let size = self.u16(*p);
                n.range.1 = p + size;
                n.kids.push(self.int("#vtable_size", Int::U16, *p));
                n.kids.push(self.int("#table_size", Int::U16, p + 2));
                for i in 0..(size - 4) / 2 {
                    let f = s.tables[*t].fields.iter().find_map(|f| {
                        if f.slot == i {
                            Some(if f.has_tag() { format!("offset[union[{}]]", f.name) } else { format!("offset[{}]", f.name) })
                        } else if f.has_tag() && f.slot == i + 1 {
                            Some(format!("offset[union_tag[{}]]", f.name))
                        } else {
                            None
                        }
                    });
                    n.kids.push(self.int(&f.unwrap_or(format!("offset[{i}]")), Int::U16, p + 4 + 2 * i));
                }
            }
            Root::Table(t, p) => {
                let vt = (*p as i64 - self.u32(*p) as u32 as i32 as i64) as usize;
                let mut k = self.link(None, *p, Root::VTable(*t, vt));
                k.tx = Tx::Lit("#vtable".into());
                n.range.1 = p + 4;
                n.kids.push(k);
                let slots = (self.u16(vt) - 4) / 2;
                let at = |d: &Self, i: usize| if i < slots { Some(d.u16(vt + 4 + 2 * i)).filter(|x| *x != 0).map(|x| p + x) } else { None };
                let mut fields: Vec<&Field> = s.tables[*t].fields.iter().collect();
                fields.sort_by_key(|f| f.slot);
                for f in fields {
                    let v = at(self, f.slot);
                    if !f.has_tag() {
                        if let Some(v) = v {
                            let k = self.inline(Some(f.name.clone()), &f.ty, v);
                            n.kids.push(k);
                        }
                        continue;
                    }
                    let Some(tp) = at(self, f.slot - 1) else { continue };
                    let key = format!("union_key[{}]", f.name);
                    match &f.ty {
                        Ty::Union(u) => {
                            n.kids.push(self.tag(key, *u, tp));
                            if let Some(v) = v {
                                let k = self.union(f.name.clone(), *u, self.b[tp], v);
                                n.kids.push(k);
                            }
                        }
                        Ty::Vec(e) => {
                            let Ty::Union(u) = **e else { unreachable!() };
                            let tq = tp + self.u32(tp);
                            let k = self.link(Some(key), tp, Root::Tags(u, tq));
                            n.kids.push(k);
                            if let Some(v) = v {
                                let vq = v + self.u32(v);
                                let k = self.link(Some(f.name.clone()), v, Root::Values(u, tq, vq));
                                n.kids.push(k);
                            }
                        }
                        _ => unreachable!(),
                    }
                }
            }
            Root::Str(p) => {
                n.range.1 = p + 4 + self.u32(*p);
                n.kids.push(self.int("length", Int::U32, *p));
            }
            Root::Vector(e, p) => {
                n.kids.push(self.int("length", Int::U32, *p));
                let sz = s.size_align(e).0;
                for i in 0..self.u32(*p) {
                    let k = self.inline(Some(i.to_string()), e, p + 4 + i * sz);
                    n.kids.push(k);
                }
            }
            Root::Tags(u, p) => {
                n.kids.push(self.int("length", Int::U32, *p));
                for i in 0..self.u32(*p) {
                    n.kids.push(self.tag(i.to_string(), *u, p + 4 + i));
                }
            }
            Root::Values(u, tp, p) => {
                n.kids.push(self.int("length", Int::U32, *p));
                for i in 0..self.u32(*p) {
                    let k = self.union(i.to_string(), *u, self.b[tp + 4 + i], p + 4 + 4 * i);
                    n.kids.push(k);
                }
            }
            Root::Struct(t, p) => {
                n = self.inline(None, &Ty::Struct(*t), *p);
            }
        }
        n.tx = self.title(r);
        n
    }
}
fn hull(n: &mut Node) {
    for k in &mut n.kids {
        hull(k);
        n.range.0 = n.range.0.min(k.range.0);
        n.range.1 = n.range.1.max(k.range.1);
    }
}
fn flatten(n: &Node, depth: usize, out: &mut Vec<XLine>) {
    out.push(XLine { depth, name: n.name.clone(), tx: Some(n.tx.clone()), opens: !n.kids.is_empty(), range: n.range, to: n.to.clone() });
    for k in &n.kids {
        flatten(k, depth + 1, out);
    }
    if !n.kids.is_empty() {
        out.push(XLine { depth, name: None, tx: None, opens: false, range: n.range, to: None });
    }
}
/// the lines that lead to what a byte belongs to
fn paths(n: &Node, byte: usize, line: &mut usize, path: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) -> bool {
    let here = *line;
    *line += 1;
    let inside = (n.range.0..n.range.1).contains(&byte);
    path.push(here);
    let mut deeper = false;
    for k in &n.kids {
        deeper |= paths(k, byte, line, path, out);
    }
    if !n.kids.is_empty() {
        *line += 1;
    }
    if inside && !deeper {
        out.push(path.clone());
    }
    path.pop();
    inside
}
fn parse(s: &Schema, table: usize, b: &[u8]) -> Vec<XRoot> {
    let mut d = Parse { s, b, seen: HashSet::new(), todo: vec![] };
    let p = d.u32(0);
    let n = d.link(None, 0, Root::Table(table, p));
    let mut trees = vec![(Root::Offset, n)];
    while let Some(r) = d.todo.pop() {
        let n = d.root(&r);
        trees.push((r, n));
    }
    let mut out: Vec<XRoot> = vec![];
    let mut classes: BTreeMap<u64, usize> = BTreeMap::new();
    for (root, mut tree) in trees {
        hull(&mut tree);
        let mut lines = vec![];
        flatten(&tree, 0, &mut lines);
        let class = hash_of(lines.iter().map(|l| (l.depth, l.name.clone(), format!("{:?}", l.tx), l.range)).collect::<Vec<_>>());
        match classes.get(&class) {
            Some(n) => out[*n].also.push(root),
            None => {
                classes.insert(class, out.len());
                out.push(XRoot { root, also: vec![], lines, range: tree.range, tree });
            }
        }
    }
    out
}

// ---- what is shown ------------------------------------------------------------------------------
fn value_matches(s: &Schema, tx: &Tx, got: &str) -> bool {
    match tx {
        Tx::Lit(t) => t == got,
        Tx::Variant(u, n) => {
            got.split_once("::").is_some_and(|(gu, gn)| gu == u && gn.replace('_', "").eq_ignore_ascii_case(&n.replace('_', "")))
        }
        Tx::F32(x) => got.parse::<f32>().is_ok_and(|y| y.to_bits() == *x || (y.is_nan() && f32::from_bits(*x).is_nan())),
        Tx::F64(x) => got.parse::<f64>().is_ok_and(|y| y.to_bits() == *x || (y.is_nan() && f64::from_bits(*x).is_nan())),
        Tx::Vector(name, n) => {
            let Some(g) = got.strip_prefix('[').and_then(|g| g.strip_suffix(&format!("; {n}]"))) else { return false };
            name.as_ref().is_none_or(|m| m == g)
        }
        Tx::NoVariant(u) => !s.unions[*u].variants.iter().any(|v| got == format!("{}::{}", s.unions[*u].name, v.0)),
    }
}
fn line_matches(s: &Schema, x: &XLine, l: &Line) -> bool {
    if (l.start as usize, l.end as usize) != x.range {
        return false;
    }
    let t = l.line.trim();
    let Some(tx) = &x.tx else { return t == "}" };
    let t = match &x.name {
        Some(n) => match t.strip_prefix(n.as_str()).and_then(|t| t.strip_prefix(": ")) {
            Some(t) => t,
            None => return false,
        },
        None => t,
    };
    let t = if x.opens {
        match t.strip_suffix(" {") {
            Some(t) => t,
            None => return false,
        }
    } else {
        t
    };
    value_matches(s, tx, t)
}

struct Seer<'w> {
    w: &'w World,
    roots: Vec<XRoot>,
    /// the viewer's objects, and which of ours they are
    known: BTreeMap<usize, (usize, u64)>,
    /// bytes of several objects
    crowded: Vec<usize>,
}
fn hash_lines<'a, 'b: 'a>(l: impl Iterator<Item = &'a Line<'b>>) -> u64 {
    hash_of(l.map(|l| (l.indentation, l.line.clone(), l.start, l.end)).collect::<Vec<_>>())
}
impl Seer<'_> {
    /// Which object is this?
    fn identify(&mut self, i: &Inspector, index: usize) -> Result<(usize, u64), Viol> {
        if let Some(x) = self.known.get(&index) {
            return Ok(*x);
        }
        let lines = i.object_mapping.line_tree(index, &i.buffer).flatten(&i.buffer);
        let (a, b) = (lines[0].start as usize, lines[0].end as usize);
        let mut near: Option<(usize, String)> = None;
        for (n, x) in self.roots.iter().enumerate() {
            let bad = x.lines.iter().zip(&lines).position(|(x, l)| !line_matches(self.w.schema, x, l));
            match bad {
                None if x.lines.len() == lines.len() => {
                    let r = (n, hash_lines(lines.iter()));
                    self.known.insert(index, r);
                    return Ok(r);
                }
                _ => {
                    let at = bad.unwrap_or(x.lines.len().min(lines.len()));
                    // the one that agrees longest, or starts at the same place
                    let score = at * 2 + (x.range.0 == a) as usize;
                    if (x.range.0 == a || x.range.1 == b) && near.as_ref().is_none_or(|m| m.0 < score) {
                        let show = lines.get(at).map(|l| format!("{:?} for bytes {}..{}", l.line, l.start, l.end));
                        let want = x.lines.get(at).map(|l| format!("{l:?}"));
                        near = Some((score, format!("{:?}: line {at} is {}, expected {}", x.root, show.unwrap_or("missing".into()), want.unwrap_or("no more lines".into()))));
                    }
                }
            }
        }
        let all: Vec<_> = lines.iter().take(12).map(|l| format!("{}..{}: {}{}", l.start, l.end, " ".repeat(l.indentation), l.line)).collect();
        match near {
            Some((_, t)) => viol("wrong-content", format!("{t}\nshown:\n{}", all.join("\n"))),
            None => viol("no-such-object", format!("nothing in the buffer looks like\n{}", all.join("\n"))),
        }
    }
    fn view(&mut self, i: &Inspector, st: &mut Stats) -> Result<(), Viol> {
        let byte = i.view_state.byte_index;
        let mut want = vec![];
        for (n, x) in self.roots.iter().enumerate() {
            if (x.range.0..x.range.1).contains(&byte) {
                let mut out = vec![];
                paths(&x.tree, byte, &mut 0, &mut vec![], &mut out);
                want.extend(out.into_iter().map(|p| (n, p)));
            }
        }
        let mut got = vec![];
        if let Some(d) = &i.view_state.info_view_data {
            for x in d.interpretations.iter() {
                got.push((self.identify(i, x.root_object_index)?.0, x.lines.clone()));
            }
        }
        want.sort();
        // planus knows a vector once for each field that leads to it
        got.sort();
        got.dedup();
        if want != got {
            let t = |l: &[(usize, Vec<usize>)]| l.iter().map(|(n, p)| format!("{:?} line {}", self.roots[*n].root, p.last().unwrap())).collect::<Vec<_>>().join(", ");
            return viol("wrong-objects", format!("byte {byte} belongs to [{}], the viewer offers [{}]", t(&want), t(&got)));
        }
        st.hit(if got.is_empty() { "bytes_of_nothing" } else { "bytes_explained" });
        if got.len() > 1 {
            st.hit("bytes_with_several_meanings");
        }
        if let Some(d) = &i.view_state.info_view_data {
            let (n, h) = self.identify(i, d.root_object_index)?;
            if hash_lines(d.lines.iter()) != h {
                return viol("wrong-lines", format!("the lines shown are not those of {:?}", self.roots[n].root));
            }
            let (l, p) = (d.lines.cur(), d.interpretations.cur());
            if p.root_object_index != d.root_object_index || !p.lines.contains(&l.start_line_index) {
                return viol("wrong-interpretation", format!("the line {:?} is not part of the interpretation {:?} that is selected", l.line, p.lines));
            }
            if !(l.start as usize..l.end as usize).contains(&byte) {
                return viol("wrong-line", format!("the line {:?} for bytes {}..{} is selected for byte {byte}", l.line, l.start, l.end));
            }
            st.max("lines", d.lines.len() as u64);
            st.state(hash_of((n, d.lines.index(), byte)));
        }
        Ok(())
    }
    /// After a pointer was followed from line `line` of object `from`.
    fn arrived(&mut self, i: &Inspector, from: usize, line: usize, st: &mut Stats) -> Result<(), Viol> {
        let x = &self.roots[from].lines[line];
        let Some(to) = &x.to else {
            return viol("followed-nothing", format!("line {line} of {:?} is no pointer, but was followed", self.roots[from].root));
        };
        let to = to.clone();
        let want = self.roots.iter().position(|r| r.root == to || r.also.contains(&to)).unwrap();
        let Some(d) = &i.view_state.info_view_data else {
            return viol("wrong-target", format!("{to:?} is not shown"));
        };
        let (n, _) = self.identify(i, d.root_object_index)?;
        if i.view_state.byte_index != to.pos() {
            return viol("wrong-target", format!("the pointer leads to {to:?}, the cursor is at {}", i.view_state.byte_index));
        }
        if n != want {
            return viol("wrong-target", format!("the pointer leads to {to:?}, shown is {:?}", self.roots[n].root));
        }
        st.hit("pointers_followed");
        Ok(())
    }
}

/// The screen as text: one string per cell.
struct Screen<'a>(&'a Buffer);
impl Screen<'_> {
    fn row(&self, y: u16) -> Vec<&str> {
        (0..self.0.area.width).map(|x| self.0[(x, y)].symbol()).collect()
    }
    fn find(&self, text: &str) -> Option<(u16, u16)> {
        for y in 0..self.0.area.height {
            let r = self.row(y);
            for x in 0..r.len() {
                if text.chars().enumerate().all(|(n, c)| r.get(x + n).is_some_and(|s| s.chars().eq([c]))) {
                    return Some((x as u16, y));
                }
            }
        }
        None
    }
    /// the inside of the frame with this title: columns and rows
    fn frame(&self, title: &str) -> Option<(std::ops::Range<u16>, std::ops::Range<u16>)> {
        let (x, y) = self.find(title)?;
        let r = self.row(y);
        let left = (0..x).rev().find(|x| r[*x as usize] == "╭")?;
        let right = (x..r.len() as u16).find(|x| r[*x as usize] == "╮")?;
        let end = (y + 1..self.0.area.height).find(|y| self.0[(left, *y)].symbol() == "╰")?;
        Some((left + 1..right, y + 1..end))
    }
}
fn hex_after(text: &str, label: &str) -> Option<Vec<usize>> {
    let t = text.trim_start().strip_prefix(label)?;
    t.trim().split('-').map(|x| usize::from_str_radix(x, 16).ok()).collect()
}
fn screen(f: &Buffer, i: &Inspector, st: &mut Stats) -> Result<(), Viol> {
    let s = Screen(f);
    let b = i.buffer.buffer;
    let byte = i.view_state.byte_index;
    match &i.modal {
        Some(ModalState::GoToByte { input }) => {
            if let Some((cols, rows)) = s.frame(" Go to offset ") {
                if cols.len() >= 19 && rows.len() >= 1 {
                    let t: String = cols.map(|x| f[(x, rows.start)].symbol()).collect();
                    if t.trim_end() != format!("0x{input}") {
                        return viol("dialog-text", format!("the offset {input:?} is shown as {t:?}"));
                    }
                    st.hit("goto_dialogs_read");
                }
            }
            return Ok(());
        }
        Some(ModalState::ViewHistory { index }) => {
            if let Some((cols, rows)) = s.frame(" History ") {
                let views: Vec<_> = i.view_stack.iter().chain(std::iter::once(&i.view_state)).collect();
                let name = |v: &planus_inspector::ViewState| v.info_view_data.as_ref().map(|d| d.lines.cur().name.clone()).unwrap_or("no object".into());
                // only if nothing is wrapped
                if cols.len() < 20 || views.iter().any(|v| name(v).len() + 10 > cols.len() || !name(v).is_ascii()) {
                    return Ok(());
                }
                for (v, y) in views.iter().enumerate().zip(rows) {
                    let t: String = cols.clone().map(|x| f[(x, y)].symbol()).collect();
                    let t = t.trim_end().to_string();
                    let (a, n) = t.split_once(' ').unwrap_or((&t, ""));
                    let at = usize::from_str_radix(a, 16) == Ok(v.1.byte_index);
                    if !at || n.trim() != name(v.1).trim() {
                        return viol("dialog-text", format!("entry {} of the history, byte {} {:?}, is shown as {t:?}", v.0, v.1.byte_index, name(v.1)));
                    }
                    let marked = cols.clone().any(|x| f[(x, y)].modifier.contains(Modifier::UNDERLINED));
                    if marked != (v.0 == *index) {
                        return viol("dialog-mark", format!("entry {} of the history is {}marked, selected is {index}", v.0, if marked { "" } else { "not " }));
                    }
                }
                st.hit("history_dialogs_read");
            }
            return Ok(());
        }
        Some(ModalState::TreeView { state, header }) => {
            if let Some((cols, rows)) = s.frame(header) {
                if let Some(x) = cols.clone().find(|x| f[(*x, rows.end)].symbol() != "─") {
                    return viol("dialog-frame", format!("column {x} of the lower border of the interpretations is {:?}", f[(x, rows.end)].symbol()));
                }
                tree_on_screen(f, cols, rows, &state.lines, state.lines.index())?;
                st.max("interpretations_in_dialog", state.lines.len() as u64);
                st.hit("interpretation_dialogs_read");
            }
            // what is previewed is what is selected
            if let (Some(d), Some((cols, rows))) = (&state.lines.cur().node.view_state.as_ref().and_then(|v| v.info_view_data.as_ref()), s.frame(" Preview ")) {
                lines_on_screen(f, cols, rows, &d.lines.iter().collect::<Vec<_>>(), d.first_line_shown, None)?;
                st.hit("previews_read");
            }
            return Ok(());
        }
        Some(_) => return Ok(()),
        None => {}
    }
    // bytes
    let mut shown = vec![];
    if let Some((cols, rows)) = s.frame(" Hex view ") {
        let (mut next, mut per_row) = (None, 0);
        for y in rows.clone() {
            let t: String = cols.clone().map(|x| f[(x, y)].symbol()).collect();
            let mut w = t.split_whitespace();
            let Some(a) = w.next() else { continue };
            let Ok(a) = usize::from_str_radix(a, 16) else {
                return viol("hex-row", format!("row {t:?} of the hex view"));
            };
            let n = w.clone().count();
            if next.is_some_and(|x| x != a) {
                return viol("hex-row", format!("row {t:?} of the hex view should start at {next:x?}"));
            }
            if next.is_none() {
                per_row = n;
            }
            if n == 0 {
                return viol("hex-row", format!("row {t:?} of the hex view has no bytes"));
            }
            if n != per_row && a + n != b.len() {
                return viol("hex-row", format!("row {t:?} of the hex view is not full"));
            }
            for (k, x) in w.enumerate() {
                if b.get(a + k).is_none_or(|y| x != format!("{y:02x}")) {
                    return viol("hex-byte", format!("byte {:#x} is {:02x?}, shown is {t:?}", a + k, b.get(a + k)));
                }
            }
            // where each byte is on the screen
            let cells: Vec<char> = t.chars().collect();
            let mut at = vec![];
            let mut x = cells.iter().position(|c| !c.is_whitespace()).unwrap();
            while x < cells.len() {
                if !cells[x].is_whitespace() {
                    at.push(x);
                    while x < cells.len() && !cells[x].is_whitespace() {
                        x += 1;
                    }
                }
                x += 1;
            }
            for (k, x) in at[1..].iter().enumerate() {
                shown.push((a + k, cols.start + *x as u16, y));
            }
            next = Some(a + n);
        }
        if !shown.is_empty() && !shown.iter().any(|x| x.0 == byte) {
            return viol("hex-cursor", format!("byte {byte:#x} under the cursor is not in the hex view"));
        }
        // as much as fits
        if !shown.is_empty() && next.unwrap() < b.len() && shown.len() < rows.len() * per_row {
            return viol("hex-row", "the hex view ends before the buffer, though there is room");
        }
        st.max("hex_bytes_on_screen", shown.len() as u64);
        if matches!(i.active_window, ActiveWindow::HexView) {
            for (a, x, y) in &shown {
                if f[(*x, *y)].modifier.contains(Modifier::UNDERLINED) != (*a == byte) {
                    return viol("hex-cursor", format!("the cursor is at byte {byte:#x}, the mark of byte {a:#x} says otherwise"));
                }
            }
        }
    }
    let mut inner = None;
    // the info view, and the colours it explains
    // (its lines wrap in narrow windows)
    if let Some((cols, rows)) = s.frame(" Info view ").filter(|f| f.0.len() >= 34) {
        let t: Vec<String> = rows.clone().map(|y| cols.clone().map(|x| f[(x, y)].symbol()).collect()).collect();
        if let Some(x) = t.iter().find_map(|t| hex_after(t, "Cursor")) {
            if x != [byte] {
                return viol("info-cursor", format!("the cursor is at {byte:#x}, shown is {x:x?}"));
            }
        }
        let mut colours = vec![];
        for (label, line) in [("Inner", 0), ("Outer", 1)] {
            let want = i.view_state.info_view_data.as_ref().map(|d| if line == 0 { d.lines.cur() } else { d.lines.first().unwrap() });
            let Some(k) = t.iter().position(|t| t.trim_start().starts_with(label)) else { continue };
            match (hex_after(&t[k], label), want) {
                (Some(x), Some(l)) => {
                    if x != [l.start as usize, l.end as usize - 1] {
                        return viol("info-range", format!("{label} is {:x}-{:x}, shown is {:?}", l.start, l.end - 1, t[k].trim()));
                    }
                    let x = t[k].len() - t[k].trim_start().len();
                    colours.push((l.start as usize..l.end as usize, f[(cols.start + x as u16, rows.start + k as u16)].bg));
                    if k + 1 < t.len() {
                        let ty = t[k + 1].trim();
                        let full = l.object.type_name(i.buffer.declarations);
                        if full.len() + 2 <= cols.len() && full != ty {
                            return viol("info-type", format!("{label} has the type {full:?}, shown is {ty:?}"));
                        }
                    }
                }
                (None, Some(l)) => return viol("info-range", format!("{label} is {:x}-{:x}, shown is {:?}", l.start, l.end - 1, t[k].trim())),
                (Some(_), None) => return viol("info-range", format!("there is no object, shown is {:?}", t[k].trim())),
                (None, None) => {}
            }
        }
        if colours.len() == 2 && colours[0].1 != colours[1].1 {
            inner = Some(colours[0].1);
            for (a, x, y) in &shown {
                let c = f[(*x, *y)].bg;
                let want = colours.iter().find(|(r, _)| r.contains(a));
                let wrong = match want {
                    Some((_, w)) => *w != c,
                    None => colours.iter().any(|(_, w)| *w == c),
                };
                if wrong {
                    return viol("hex-colour", format!("byte {a:#x} has the wrong colour: inner {:x?}, outer {:x?}", colours[0].0, colours[1].0));
                }
            }
            st.hit("colours_checked");
        }
        if let Some(d) = &i.view_state.info_view_data {
            if let Some(x) = t.iter().find_map(|t| t.trim().strip_prefix("Interpretation: ")) {
                if x != format!("{}/{}", d.interpretations.index() + 1, d.interpretations.len()) {
                    return viol("info-interpretation", format!("interpretation {} of {} is shown as {x:?}", d.interpretations.index() + 1, d.interpretations.len()));
                }
            }
        }
    }
    // the object
    if let Some((cols, rows)) = s.frame(" Object view ") {
        match &i.view_state.info_view_data {
            None => {
                for y in rows {
                    if cols.clone().any(|x| f[(x, y)].symbol() != " ") {
                        return viol("object-row", format!("byte {byte:#x} belongs to nothing, but something is shown"));
                    }
                }
            }
            Some(d) => {
                let active = matches!(i.active_window, ActiveWindow::ObjectView);
                lines_on_screen(f, cols.clone(), rows.clone(), &d.lines.iter().collect::<Vec<_>>(), d.first_line_shown, active.then_some(d.lines.index()))?;
                // the selected object stands out in the colour that the info view explains
                if let Some(inner) = inner {
                    let cur = d.lines.cur();
                    for (k, y) in rows.enumerate() {
                        let here = (cur.start_line_index..=cur.end_line_index).contains(&(d.first_line_shown + k));
                        for x in cols.clone() {
                            let col = (x - cols.start) as usize;
                            // (the mark of pointers)
                            if f[(x, y)].symbol() == "*" && col == 0 {
                                continue;
                            }
                            // (wide characters: what ratatui does with the cell behind them is its affair)
                            if !f[(x, y)].symbol().is_ascii() {
                                break;
                            }
                            let want = here && (cur.indentation..cur.indentation + cur.object_width).contains(&col);
                            if (f[(x, y)].bg == inner) != want {
                                return viol("object-colour", format!("line {}, column {col} of the object is {}in the colour of the selected object {}-{}", d.first_line_shown + k, if want { "not " } else { "" }, cur.start_line_index, cur.end_line_index));
                            }
                        }
                    }
                    st.hit("object_colours_checked");
                }
            }
        }
        st.hit("object_views_read");
    }
    Ok(())
}
/// The interpretations, or as many as fit, the selected one among them.
fn tree_on_screen(f: &Buffer, cols: std::ops::Range<u16>, rows: std::ops::Range<u16>, lines: &[TreeStateLine], selected: usize) -> Result<(), Viol> {
    let cells = |y: u16| cols.clone().map(move |x| f[(x, y)].symbol());
    let want = |k: usize| {
        let l = &lines[k];
        let fold = match l.fold_state {
            FoldState::NoChildren => "",
            FoldState::Folded => " [+]",
            FoldState::Unfolded => " [-]",
        };
        format!("{}{}{fold}", " ".repeat(2 * l.indent_level), l.node.text)
    };
    let fits = |first: usize| {
        for (n, y) in rows.clone().enumerate() {
            let text = if first + n < lines.len() { want(first + n) } else { String::new() };
            let text: Vec<char> = text.chars().collect();
            for (x, g) in cells(y).enumerate() {
                let c = text.get(x).copied().unwrap_or(' ');
                if !c.is_ascii() || c.is_control() {
                    break;
                }
                if g.chars().next() != Some(c) {
                    return Err(("dialog-text", format!("row {n} of the interpretations is {:?}, expected is {:?}", cells(y).collect::<String>(), text.iter().collect::<String>())));
                }
            }
            let marked = cols.clone().any(|x| f[(x, y)].modifier.contains(Modifier::UNDERLINED));
            if marked != (first + n == selected) && !text.is_empty() && !cols.is_empty() {
                return Err(("dialog-mark", format!("interpretation {} is {}marked, selected is {selected}", first + n, if marked { "" } else { "not " })));
            }
        }
        Ok(())
    };
    if rows.is_empty() {
        return Ok(());
    }
    let firsts = (selected + 1).saturating_sub(rows.len())..=selected.min(lines.len().saturating_sub(rows.len()));
    if firsts.clone().any(|x| fits(x).is_ok()) {
        return Ok(());
    }
    let (sig, text) = fits(*firsts.start()).unwrap_err();
    viol(sig, text)
}
fn lines_on_screen(f: &Buffer, cols: std::ops::Range<u16>, rows: std::ops::Range<u16>, lines: &[&Line], first: usize, cursor: Option<usize>) -> Result<(), Viol> {
    if cursor.is_some_and(|c| !rows.is_empty() && !(first..first + rows.len()).contains(&c)) {
        return viol("object-row", format!("line {cursor:?} is selected, shown are {first}..{}", first + rows.len()));
    }
    for (k, y) in rows.enumerate() {
        let got: Vec<&str> = cols.clone().map(|x| f[(x, y)].symbol()).collect();
        let Some(l) = lines.get(first + k) else {
            if got.iter().any(|c| *c != " ") {
                return viol("object-row", format!("{:?} is shown behind the end of the object", got.concat()));
            }
            continue;
        };
        let text: Vec<char> = " ".repeat(l.indentation).chars().chain(l.line.chars()).collect();
        let mut plain = true;
        for (x, g) in got.iter().enumerate() {
            let c = text.get(x).copied().unwrap_or(' ');
            plain &= c.is_ascii();
            if !plain {
                break;
            }
            // (the mark of pointers)
            if g.chars().next() != Some(c) && !(x == 0 && *g == "*") {
                return viol("object-row", format!("line {:?} is shown as {:?}", text.iter().collect::<String>(), got.concat()));
            }
            let under = f[(cols.start + x as u16, y)].modifier.contains(Modifier::UNDERLINED);
            if x >= l.indentation && x < text.len() && cursor.is_some() && under != (cursor == Some(first + k)) && !(x == 0 && *g == "*") {
                return viol("object-cursor", format!("line {cursor:?} is selected, the mark of line {} says otherwise", first + k));
            }
        }
    }
    Ok(())
}

// ---- a session ----------------------------------------------------------------------------------
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Hash)]
pub enum Do {
    /// as in C13
    Ev(Ev),
    /// type the offset of an object (1), of a byte that belongs to several (2), or any offset
    Visit { what: u8, n: u64 },
    /// see all that the byte under the cursor may mean
    Cycle,
    /// select this pointer of the object shown, and follow it
    Follow(u64),
}
pub struct Content;
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub input: Input,
    pub w: u16,
    pub h: u16,
    pub todo: Vec<Do>,
}
struct Run<'w> {
    i: Inspector<'w>,
    seer: Seer<'w>,
    t: Terminal<Sim>,
}
impl Run<'_> {
    fn draw(&mut self, st: &mut Stats) -> Result<(), Viol> {
        let f = self.t.draw(|f| ui::draw(f, &mut self.i)).expect("harness: terminal").buffer.clone();
        st.hit("frames");
        st.obs(hash_of(f.content.iter().map(|c| c.symbol().chars().next().unwrap_or(' ') as u32).collect::<Vec<_>>()));
        screen(&f, &self.i, st)
    }
    /// false: the viewer was left
    fn press(&mut self, k: K, ctrl: bool, st: &mut Stats) -> Result<bool, Viol> {
        st.hit("keys");
        let from = match (&self.i.modal, &self.i.view_state.info_view_data, k) {
            (None, Some(d), K::Enter) => Some((self.seer.identify(&self.i, d.root_object_index)?.0, d.lines.index())),
            _ => None,
        };
        let to = from.and_then(|_| pointer(&self.i));
        let depth = self.i.view_stack.len();
        let redraw = self.i.on_key(key(k, ctrl));
        if self.i.should_quit {
            return Ok(false);
        }
        self.seer.view(&self.i, st)?;
        if let Some((n, l)) = from {
            let x = &self.seer.roots[n].lines[l];
            if x.to.is_some() && to.is_none() {
                return viol("no-pointer", format!("line {l} of {:?} leads to {:?}, but cannot be followed", self.seer.roots[n].root, x.to));
            }
            if self.i.view_stack.len() > depth {
                self.seer.arrived(&self.i, n, l, st)?;
            } else if x.to.is_some() {
                return viol("no-pointer", format!("line {l} of {:?} leads to {:?}, but Enter does not follow", self.seer.roots[n].root, x.to));
            }
        }
        if redraw {
            self.draw(st)?;
        }
        Ok(true)
    }
    fn step(&mut self, d: &Do, st: &mut Stats) -> Result<bool, Viol> {
        match d {
            Do::Ev(Ev::Key { k, ctrl }) => return self.press(*k, *ctrl, st),
            Do::Ev(Ev::Size(w, h)) => {
                self.t.backend().resize(*w, *h);
                st.fault("window_resized");
            }
            Do::Ev(Ev::Resized) => self.draw(st)?,
            Do::Ev(_) => {}
            Do::Visit { what, n } => {
                if self.i.modal.is_some() && !self.press(K::Esc, false, st)? {
                    return Ok(false);
                }
                let len = self.i.buffer.buffer.len();
                let b = match what {
                    1 => self.seer.roots[(*n % self.seer.roots.len() as u64) as usize].root.pos(),
                    2 if !self.seer.crowded.is_empty() => self.seer.crowded[(*n % self.seer.crowded.len() as u64) as usize],
                    _ => (*n % len as u64) as usize,
                };
                self.press(K::C('g'), false, st)?;
                for c in format!("{b:x}").chars() {
                    self.press(K::C(c), false, st)?;
                }
                self.press(K::Enter, false, st)?;
                if self.i.view_state.byte_index != b {
                    return viol("wrong-offset", format!("offset {b:#x} was asked for, the cursor is at {:#x}", self.i.view_state.byte_index));
                }
                st.hit("visits");
            }
            Do::Cycle => {
                if self.i.modal.is_some() {
                    return Ok(true);
                }
                let Some(d) = &self.i.view_state.info_view_data else { return Ok(true) };
                let n = d.interpretations.len();
                let mut seen = vec![];
                for _ in 0..n {
                    let d = self.i.view_state.info_view_data.as_ref().unwrap();
                    seen.push((d.interpretations.index(), d.root_object_index, d.interpretations.cur().lines.clone()));
                    self.press(K::C('c'), false, st)?;
                }
                seen.sort();
                seen.dedup();
                if seen.len() != n {
                    return viol("cycle", format!("going through {n} interpretations shows {} of them", seen.len()));
                }
                st.hit("cycles");
            }
            Do::Follow(n) => {
                if self.i.modal.is_some() {
                    return Ok(true);
                }
                let Some(d) = &self.i.view_state.info_view_data else { return Ok(true) };
                let x = self.seer.identify(&self.i, d.root_object_index)?.0;
                let ptr: Vec<usize> = (0..self.seer.roots[x].lines.len()).filter(|l| self.seer.roots[x].lines[*l].to.is_some()).collect();
                if ptr.is_empty() {
                    return Ok(true);
                }
                let want = ptr[(*n % ptr.len() as u64) as usize];
                if matches!(self.i.active_window, ActiveWindow::HexView) {
                    self.press(K::Tab, false, st)?;
                }
                for _ in 0..150 {
                    let at = self.i.view_state.info_view_data.as_ref().map(|d| d.lines.index());
                    let Some(at) = at else { break };
                    if at == want {
                        self.press(K::Enter, false, st)?;
                        break;
                    }
                    let k = match (at < want, at.abs_diff(want)) {
                        (true, 5..) => K::PageDown,
                        (true, _) => K::Down,
                        (false, 5..) => K::PageUp,
                        (false, _) => K::Up,
                    };
                    self.press(k, false, st)?;
                }
            }
        }
        Ok(true)
    }
}
fn run(c: &Case, st: &mut Stats) -> Result<(), Viol> {
    let Some(w) = c.input.world() else {
        st.hit("schema_refused");
        return Ok(());
    };
    st.max("buffer_bytes", w.buffer.len() as u64);
    let roots = parse(w.schema, c.input.t, w.buffer);
    st.max("objects", roots.len() as u64);
    let i = Inspector::new(InspectableFlatbuffer { declarations: w.decl, buffer: w.buffer }, w.root);
    let n = roots.len();
    let mut count = vec![0u32; w.buffer.len()];
    for x in &roots {
        for b in x.range.0..x.range.1 {
            count[b] += 1;
        }
    }
    let crowded = (0..count.len()).filter(|b| count[*b] > 1).collect();
    let mut r = Run { i, seer: Seer { w: &w, roots, known: BTreeMap::new(), crowded }, t: Terminal::new(Sim::new(c.w, c.h)).expect("harness: terminal") };
    r.seer.view(&r.i, st)?;
    r.draw(st)?;
    for d in &c.todo {
        if !r.step(d, st)? {
            break;
        }
    }
    // nothing is missing, nothing is made up
    let mut seen = HashSet::new();
    for k in 0..r.i.object_mapping.root_objects.len() {
        seen.insert(r.seer.identify(&r.i, k)?.0);
    }
    if let Some(k) = (0..n).find(|k| !seen.contains(k)) {
        return viol("object-missing", format!("{:?} is in the buffer, the viewer does not know it", r.seer.roots[k].root));
    }
    st.hit("objects_identified");
    st.path(hash_of((&c.todo, hash_of(w.buffer))));
    Ok(())
}
impl Check for Content {
    type Case = Case;
    fn property(&self) -> &'static str {
        "C14"
    }
    fn runs(&self, tier: &str) -> (u64, u64) {
        let q = std::env::var("SIM_RUNS").ok().and_then(|x| x.parse().ok()).unwrap_or(40_000);
        if tier == "thorough" {
            (q * 100, 900)
        } else {
            (q, 60)
        }
    }
    fn gen(&self, seed: u64) -> Case {
        let mut rng = Rng::new(seed);
        let rng = &mut rng;
        let input = Input::random(rng, false);
        let (w, h) = if rng.chance(2, 3) { (100 + rng.below(80) as u16, 20 + rng.below(60) as u16) } else { session::size(rng) };
        let n = *rng.pick(&[4, 10, 20, 40]);
        let wt: Vec<usize> = (0..5).map(|_| *rng.pick(&[0, 1, 2, 6])).collect();
        let mut todo = vec![];
        while todo.len() < n {
            match rng.weighted(&[wt[0] + 1, wt[1], wt[2], wt[3], wt[4]]) {
                0 => todo.push(Do::Visit { what: *rng.pick(&[0, 1, 1, 2]), n: rng.u64() >> 8 }),
                1 => todo.push(Do::Cycle),
                2 => todo.push(Do::Follow(rng.u64() >> 8)),
                3 => {
                    let n = 1 + rng.below(12);
                    todo.extend(session::events(rng, n).into_iter().map(Do::Ev));
                }
                _ => todo.push(Do::Ev(Ev::Key { k: K::Backspace, ctrl: false })),
            }
        }
        Case { input, w, h, todo }
    }
    fn run(&self, c: &Case, st: &mut Stats) -> Result<(), Viol> {
        foldhash::sim::set(1, 0);
        guarded(|| run(c, st))
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        let mut out = vec![];
        let n = c.todo.len();
        let mut size = n;
        while size > 0 {
            for at in (0..n).step_by(size) {
                let mut x = c.clone();
                x.todo.drain(at..(at + size).min(n));
                out.push(x);
            }
            size /= 2;
        }
        if (c.w, c.h) != (120, 40) {
            out.push(Case { w: 120, h: 40, ..c.clone() });
        }
        for i in c.input.shrink() {
            out.push(Case { input: i, ..c.clone() });
        }
        out
    }
    fn rule(&self) -> &'static str {
        "a seeded session of the viewer on a buffer written by planus or the independent encoder: offsets typed in, pointers followed, interpretations cycled, other keys and window sizes; after each key the object, line and interpretations shown are compared with what the schema says about the byte under the cursor, and each screen with the state; distinct by steps and buffer; distinct states are (object, line, byte)"
    }
    fn describe(&self, c: &Case) -> String {
        format!("{}\nwindow {}x{}, steps {:?}", c.input.describe(), c.w, c.h, c.todo)
    }
    fn per_run_timeout(&self) -> u64 {
        20
    }
    fn components(&self) -> serde_json::Value {
        components()
    }
}
