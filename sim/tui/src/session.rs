//! C13: seeded sessions of keys, resizes, redraws and terminal faults on the real viewer, step by
//! step against a model of the navigation, and once more through the viewer's own event loop.
use crate::{term::*, world::*};
use crossterm::event::{Event, KeyCode, KeyEvent, KeyModifiers, MouseButton, MouseEvent, MouseEventKind};
use planus_buffer_inspection::{InspectableFlatbuffer, Object};
use planus_inspector::{ui, ActiveWindow, Inspector, ModalState, ViewState};
use ratatui::Terminal;
use serde::{Deserialize, Serialize};
use simcore::rng::Rng;
use simdrv::{hash_of, viol, Check, Stats, Viol};
use simrt::hist::guarded;
use std::{cell::RefCell, io, rc::Rc, time::Duration};

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum K {
    Up,
    Down,
    Left,
    Right,
    PageUp,
    PageDown,
    Home,
    End,
    Enter,
    Esc,
    Backspace,
    Tab,
    BackTab,
    Delete,
    Insert,
    F(u8),
    C(char),
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Hash)]
pub enum Ev {
    Key { k: K, ctrl: bool },
    /// the window already has this size, the viewer does not know yet
    Size(u16, u16),
    /// the viewer hears of a new size, or has to redraw for another reason
    Resized,
    /// this many seconds pass
    Idle(u8),
    /// something else the terminal reports
    Noise(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub input: Input,
    pub w: u16,
    pub h: u16,
    pub ev: Vec<Ev>,
    /// 0: q, 1: ctrl-c, 2: as many Esc as it takes
    pub end: u8,
    /// run the viewer's own event loop, too; this call to the terminal fails
    pub looped: bool,
    pub fail_at: Option<u64>,
}
pub struct Sessions;

pub fn key(k: K, ctrl: bool) -> KeyEvent {
    let code = match k {
        K::Up => KeyCode::Up,
        K::Down => KeyCode::Down,
        K::Left => KeyCode::Left,
        K::Right => KeyCode::Right,
        K::PageUp => KeyCode::PageUp,
        K::PageDown => KeyCode::PageDown,
        K::Home => KeyCode::Home,
        K::End => KeyCode::End,
        K::Enter => KeyCode::Enter,
        K::Esc => KeyCode::Esc,
        K::Backspace => KeyCode::Backspace,
        K::Tab => KeyCode::Tab,
        K::BackTab => KeyCode::BackTab,
        K::Delete => KeyCode::Delete,
        K::Insert => KeyCode::Insert,
        K::F(n) => KeyCode::F(n),
        K::C(c) => KeyCode::Char(c),
    };
    KeyEvent::new(code, if ctrl { KeyModifiers::CONTROL } else { KeyModifiers::NONE })
}

// ---- what there is to see of the viewer's state ------------------------------------------------
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Info {
    pub first_line_shown: usize,
    pub root: usize,
    pub line: usize,
    pub count: usize,
    /// first and last line, line above, and bytes of what is selected
    pub own: (usize, usize, usize, usize, usize),
    /// hash of all lines
    pub lines: u64,
    pub interpretation: usize,
    pub interpretations: u64,
}
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct View {
    pub byte: usize,
    pub info: Option<Info>,
}
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum Modal {
    None,
    GoTo(String),
    XRefs,
    History(usize),
    Help,
    Tree(usize, usize),
}
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct State {
    pub view: View,
    pub stack: Vec<View>,
    pub modal: Modal,
    pub object_view: bool,
    pub hex: (usize, usize),
    pub quit: bool,
}
fn view(v: &ViewState) -> View {
    View {
        byte: v.byte_index,
        info: v.info_view_data.as_ref().map(|d| Info {
            first_line_shown: d.first_line_shown,
            root: d.root_object_index,
            line: d.lines.index(),
            count: d.lines.len(),
            own: {
                let l = d.lines.cur();
                (l.start_line_index, l.end_line_index, l.parent_line_index, l.start as usize, l.end as usize)
            },
            lines: {
                let l: Vec<_> = d
                    .lines
                    .iter()
                    .map(|l| (l.indentation, l.start_line_index, l.end_line_index, l.parent_line_index, &l.line, l.start, l.end))
                    .collect();
                hash_of(&l)
            },
            interpretation: d.interpretations.index(),
            interpretations: {
                let l: Vec<_> = d.interpretations.iter().map(|i| (i.root_object_index, &i.lines)).collect();
                hash_of(&l)
            },
        }),
    }
}
pub fn state(i: &Inspector) -> State {
    State {
        view: view(&i.view_state),
        stack: i.view_stack.iter().map(view).collect(),
        modal: match &i.modal {
            None => Modal::None,
            Some(ModalState::GoToByte { input }) => Modal::GoTo(input.clone()),
            Some(ModalState::XRefs { .. }) => Modal::XRefs,
            Some(ModalState::ViewHistory { index }) => Modal::History(*index),
            Some(ModalState::HelpMenu) => Modal::Help,
            Some(ModalState::TreeView { state, .. }) => Modal::Tree(state.lines.len(), state.lines.index()),
        },
        object_view: matches!(i.active_window, ActiveWindow::ObjectView),
        hex: (i.hex_view_state.line_size, i.hex_view_state.line_pos),
        quit: i.should_quit,
    }
}

/// What must hold in every state.
fn invariants(i: &Inspector, s: &State) -> Result<(), Viol> {
    let len = i.buffer.buffer.len();
    if s.view.byte >= len {
        return viol("cursor-outside", format!("the cursor is at byte {} of a buffer of {len} bytes", s.view.byte));
    }
    if let Modal::History(n) = s.modal {
        if n > s.stack.len() {
            return viol("history-index", format!("entry {n} of a history of {}", s.stack.len()));
        }
    }
    for v in std::iter::once(&i.view_state).chain(&i.view_stack) {
        if v.byte_index >= len {
            return viol("cursor-outside", format!("a remembered cursor is at byte {} of {len}", v.byte_index));
        }
        let Some(d) = &v.info_view_data else { continue };
        if d.lines.is_empty() || d.lines.index() >= d.lines.len() {
            return viol("line-index", format!("line {} of {}", d.lines.index(), d.lines.len()));
        }
        if d.interpretations.is_empty() || d.interpretations.index() >= d.interpretations.len() {
            return viol("interpretation-index", format!("interpretation {} of {}", d.interpretations.index(), d.interpretations.len()));
        }
        if d.interpretations.cur().root_object_index != d.root_object_index {
            return viol(
                "interpretation-object",
                format!("the chosen interpretation belongs to object {}, shown is {}", d.interpretations.cur().root_object_index, d.root_object_index),
            );
        }
        let l = d.lines.cur();
        if !(l.start as usize..l.end as usize).contains(&v.byte_index) {
            return viol(
                "cursors-disagree",
                format!("the cursor is at byte {}, the selected line {:?} stands for bytes {}..{}", v.byte_index, l.line, l.start, l.end),
            );
        }
        let mut open: Vec<usize> = vec![];
        for (n, l) in d.lines.iter().enumerate() {
            if l.start > l.end || l.end as usize > len {
                return viol("line-outside", format!("line {n} {:?} stands for bytes {}..{} of {len}", l.line, l.start, l.end));
            }
            // the tree of the lines is what their indentation shows
            let (f, e) = (l.start_line_index, l.end_line_index);
            while open.last().is_some_and(|x| d.lines[*x].indentation >= l.indentation) {
                open.pop();
            }
            let above = open.last().copied().unwrap_or(0);
            open.push(n);
            let fine = f <= n
                && e >= n
                && e < d.lines.len()
                && l.parent_line_index == above
                && (f == n || e == n)
                && d.lines[f].end_line_index == e
                && d.lines[e].start_line_index == f
                && d.lines[f].indentation == d.lines[e].indentation
                && d.lines[f..=e].iter().skip(1).rev().skip(1).all(|x| x.indentation > l.indentation)
                && d.lines.get(e + 1).is_none_or(|x| x.indentation <= l.indentation);
            if !fine {
                return viol("line-tree", format!("line {n} {:?}: {}..{} below {}", l.line, l.start_line_index, l.end_line_index, l.parent_line_index));
            }
        }
    }
    Ok(())
}

/// Where the pointer in the selected line leads, from the bytes alone. None: no pointer.
pub fn pointer(i: &Inspector) -> Option<usize> {
    let d = i.view_state.info_view_data.as_ref()?;
    let l = d.lines.cur();
    let Object::Offset(o) = &l.object else { return None };
    let p = l.start as usize;
    let raw = i.buffer.buffer.get(p..p + 4)?;
    let x = u32::from_le_bytes(raw.try_into().unwrap());
    Some(if matches!(o.kind, planus_buffer_inspection::OffsetObjectKind::VTable(_)) {
        (p as i64 - x as i32 as i64) as usize
    } else {
        p + x as usize
    })
}

/// Where the cursor goes.
fn moved(a: &State, b: &State, k: K, ctrl: bool, len: usize) -> Result<(), String> {
    // where it is, the last place, where it is then, and how far a page goes
    let (at, last, to, unit) = match (&a.view.info, &b.view.info) {
        _ if !a.object_view => (a.view.byte, len - 1, b.view.byte, a.hex.0),
        (Some(x), Some(y)) => (x.line, x.count - 1, y.line, 1),
        (None, _) => return if a.view == b.view { Ok(()) } else { Err("there is no object, but the view changed".into()) },
        _ => return Err("the object is gone".into()),
    };
    let page = match k {
        K::PageUp if at == 0 || unit == 0 => return if to == at { Ok(()) } else { Err(format!("the cursor went from {at} to {to}")) },
        K::PageDown if at == last || unit == 0 => return if to == at { Ok(()) } else { Err(format!("the cursor went from {at} to {to}")) },
        K::PageUp => at.checked_sub(to),
        K::PageDown => to.checked_sub(at),
        _ => {
            let want = match (a.object_view, k) {
                (_, K::Home) => 0,
                (_, K::End) => last,
                (true, _) => {
                    let (first, end, parent, ..) = a.view.info.as_ref().unwrap().own;
                    match k {
                        K::Left => parent,
                        K::Right if first != end => first + 1,
                        K::Right => at,
                        K::Up if ctrl && first != at => first,
                        K::Down if ctrl && end != at => end,
                        K::Up => at.saturating_sub(1),
                        _ => (at + 1).min(last),
                    }
                }
                (false, _) => {
                    // the bytes of the selected line
                    let (from, until) = match &a.view.info {
                        Some(x) if ctrl => (x.own.3, x.own.4),
                        _ => (at, at + 1),
                    };
                    match k {
                        K::Left => from.saturating_sub(1),
                        K::Right => until.min(last),
                        K::Up => at.checked_sub(unit).unwrap_or(at),
                        _ if at + unit <= last => at + unit,
                        _ => at,
                    }
                }
            };
            return if to == want { Ok(()) } else { Err(format!("the cursor went from {at} to {to} instead of {want} (of {last})")) };
        }
    };
    match page {
        Some(n) if n > 0 && (n % unit == 0 || to == 0 || to == last) => Ok(()),
        _ => Err(format!("the cursor went from {at} to {to} (of {last}, {unit} in a row)")),
    }
}

/// One key against the model: `a` before, `b` after.
fn step(a: &State, b: &State, k: K, ctrl: bool, target: Option<usize>, len: usize) -> Result<(), Viol> {
    let bad = |sig: &str, text: String| viol(sig, format!("{text}\nkey {k:?}{}, dialog {:?}, history {}", if ctrl { " with ctrl" } else { "" }, a.modal, a.stack.len()));
    let same = |what: &str| -> Result<(), Viol> {
        if a.view != b.view {
            return bad("view-changed", format!("{what}, but the view changed from {:?} to {:?}", a.view, b.view));
        }
        if a.stack != b.stack {
            return bad("history-changed", format!("{what}, but the history changed from {} to {} entries", a.stack.len(), b.stack.len()));
        }
        Ok(())
    };
    // leaving
    if k == K::C('q') || (k == K::C('c') && ctrl) {
        if !b.quit {
            return bad("cannot-leave", "the viewer goes on".into());
        }
        return same("the viewer was left");
    }
    let may_quit = k == K::Esc && a.modal == Modal::None && a.stack.is_empty();
    if b.quit != may_quit {
        return bad(if b.quit { "left" } else { "cannot-leave" }, format!("the viewer {}", if b.quit { "ends" } else { "goes on" }));
    }
    if b.quit {
        return same("the viewer was left");
    }
    // the view from before is what a new entry of the history holds
    let pushed = || -> Result<(), Viol> {
        if b.stack.len() != a.stack.len() + 1 || b.stack[..a.stack.len()] != a.stack[..] || b.stack.last() != Some(&a.view) {
            return bad("history-lost", format!("the view from before is not the last entry of the history ({} entries)", b.stack.len()));
        }
        Ok(())
    };
    let focus = match (&a.modal, k) {
        (_, K::Tab) => !a.object_view && a.view.info.is_some(),
        (Modal::GoTo(s), K::Enter) if !s.is_empty() => false,
        _ => a.object_view,
    };
    if b.object_view != focus {
        return bad("wrong-focus", format!("the focus is on the {} view", if b.object_view { "object" } else { "hex" }));
    }
    match (&a.modal, k) {
        (Modal::None, K::Enter) => {
            if let Some(t) = target {
                pushed()?;
                if b.view.byte != t || b.view.info.is_none() {
                    return bad("entered-elsewhere", format!("the pointer leads to {t}, the cursor is at {}", b.view.byte));
                }
            } else {
                same("there was nothing to enter")?;
            }
        }
        (Modal::None, K::Esc | K::Backspace) => {
            if let Some((last, rest)) = a.stack.split_last() {
                if b.view != *last || b.stack != rest {
                    return bad("not-restored", format!("going back leads to {:?} instead of {last:?}", b.view));
                }
            } else {
                same("there was nothing to go back to")?;
            }
        }
        (Modal::None, K::C('c')) => {
            if a.stack != b.stack || a.view.byte != b.view.byte || a.view.info.is_some() != b.view.info.is_some() {
                return bad("view-changed", "another interpretation changed more than that".into());
            }
        }
        (Modal::None, K::Up | K::Down | K::Left | K::Right | K::PageUp | K::PageDown | K::Home | K::End) => {
            if a.stack != b.stack {
                return bad("history-changed", "a movement changed the history".into());
            }
            if a.object_view {
                if let (Some(x), Some(y)) = (&a.view.info, &b.view.info) {
                    if (x.lines, x.root) != (y.lines, y.root) {
                        return bad("object-changed", "a movement in the object view changed the object".into());
                    }
                    if x.line == y.line && a.view.byte != b.view.byte {
                        return bad("view-changed", "the byte changed, the line did not".into());
                    }
                }
            }
            moved(a, b, k, ctrl, len).or_else(|t| bad("wrong-movement", t))?;
        }
        (Modal::None, _) => same("that is no movement")?,
        (_, K::Esc) => {
            if b.modal != Modal::None {
                return bad("dialog-stays", "the dialog was not closed".into());
            }
            same("a dialog was closed")?;
        }
        (Modal::GoTo(s), K::Enter) => {
            if s.is_empty() {
                same("no offset was given")?;
            } else {
                // more than 16 digits cannot be typed
                let addr = u64::from_str_radix(s, 16).unwrap_or(u64::MAX);
                let want = (addr.min(len as u64 - 1)) as usize;
                if b.view.byte != want {
                    return bad("wrong-offset", format!("offset {s:?} leads to byte {}", b.view.byte));
                }
                if b.modal != Modal::None {
                    return bad("dialog-stays", "the dialog was not closed".into());
                }
                pushed()?;
            }
        }
        (Modal::History(n), K::Enter) => {
            if *n < a.stack.len() {
                if b.view != a.stack[*n] || b.stack != a.stack[..*n] {
                    return bad("not-restored", format!("entry {n} of the history leads to {:?} instead of {:?}", b.view, a.stack[*n]));
                }
            } else {
                same("the present was chosen from the history")?;
            }
            if b.modal != Modal::None {
                return bad("dialog-stays", "the dialog was not closed".into());
            }
        }
        (Modal::History(n), K::Up | K::Down) => {
            same("a movement in the history dialog")?;
            let want = if k == K::Up { n.saturating_sub(1) } else { (n + 1).min(a.stack.len()) };
            if b.modal != Modal::History(want) {
                return bad("history-index", format!("the dialog is at {:?} instead of {want}", b.modal));
            }
        }
        (Modal::Tree(n, i), K::Enter) => {
            pushed()?;
            if b.view.byte != a.view.byte || b.view.info.as_ref().is_none_or(|d| d.interpretation != *i) {
                return bad("wrong-interpretation", format!("interpretation {i} of {n} was chosen, shown is {:?}", b.view));
            }
            if b.modal != Modal::None {
                return bad("dialog-stays", "the dialog was not closed".into());
            }
        }
        (_, _) => same("a key in a dialog")?,
    }
    Ok(())
}

/// The cursor can be seen.
fn visible(i: &Inspector, s: &State, f: &ratatui::buffer::Buffer) -> Result<(), Viol> {
    use ratatui::style::Modifier;
    let (w, h) = (f.area.width, f.area.height);
    if s.modal != Modal::None || w < 100 || h < 16 {
        return Ok(());
    }
    // the rows of the two panels: the lower one starts at the second row with a left corner
    let split = (1..h).find(|y| f[(0, *y)].symbol() == "╭");
    let Some(split) = split else { return Ok(()) };
    let rows = if s.object_view { 0..split } else { split..h };
    let cols = if s.object_view { 0..w - 45 } else { 0..w };
    let mut found = None;
    for y in rows {
        for x in cols.clone() {
            if f[(x, y)].modifier.contains(Modifier::UNDERLINED) {
                found = found.or(Some((x, y)));
            }
        }
    }
    match found {
        Some((x, y)) if s.object_view => {
            let l = i.view_state.info_view_data.as_ref().unwrap().lines.cur();
            // the first letters, as far as they are plain
            for (n, c) in l.line.chars().take_while(|c| c.is_ascii_graphic()).enumerate() {
                let x = x + n as u16;
                // (the mark of a pointer covers the first letter of an unindented line)
                if n == 0 && l.indentation == 0 && f[(x, y)].symbol() == "*" {
                    continue;
                }
                if x + 1 < w - 45 && f[(x, y)].symbol() != c.to_string() {
                    return viol("wrong-cursor", format!("the cursor is not at the selected line {:?}", l.line));
                }
            }
            Ok(())
        }
        Some((x, y)) => {
            let t: String = (0..2).map(|n| f[(x + n, y)].symbol().to_string()).collect();
            let want = format!("{:02x}", i.buffer.buffer[s.view.byte]);
            if t != want {
                return viol("wrong-cursor", format!("the cursor is at {t:?}, byte {} is {want}", s.view.byte));
            }
            Ok(())
        }
        None if s.object_view && s.view.info.is_none() => Ok(()),
        None => viol("no-cursor", format!("the cursor cannot be seen in a window of {w}x{h} ({s:?})")),
    }
}

fn draw(t: &mut Terminal<Sim>, i: &mut Inspector, st: &mut Stats) -> Result<(State, ratatui::buffer::Buffer), Viol> {
    let (w, h) = t.backend().size();
    let f1 = t.draw(|f| ui::draw(f, i)).expect("harness: terminal").buffer.clone();
    let s = state(i);
    invariants(i, &s)?;
    visible(i, &s, &f1)?;
    // the same again, on another terminal
    let mut t2 = Terminal::new(Sim::new(w, h)).expect("harness: terminal");
    let f2 = t2.draw(|f| ui::draw(f, i)).expect("harness: terminal").buffer.clone();
    if f1 != f2 {
        return viol("redraw-differs", format!("drawing the same state again in a window of {w}x{h} shows something else: {:?}", f1.diff(&f2).first()));
    }
    if state(i) != s {
        return viol("draw-changes", format!("drawing changed the state from {s:?} to {:?}", state(i)));
    }
    let (c1, c2) = (t.backend().shown().cursor, t2.backend().shown().cursor);
    if c1 != c2 {
        return viol("redraw-differs", format!("the terminal's cursor is at {c1:?}, then at {c2:?}"));
    }
    st.hit("frames");
    st.obs(hash_of(f1.content.iter().map(|c| c.symbol().chars().next().unwrap_or(' ') as u32).collect::<Vec<_>>()));
    Ok((s, f1))
}

/// Step by step. Returns the frames the viewer's own loop has to show.
fn direct(c: &Case, w: &World, st: &mut Stats) -> Result<Vec<Shown>, Viol> {
    let mut i = Inspector::new(InspectableFlatbuffer { declarations: w.decl, buffer: w.buffer }, w.root);
    let dev = Sim::new(c.w, c.h);
    let mut t = Terminal::new(dev.clone()).expect("harness: terminal");
    let mut frames = vec![];
    let (mut s, mut last) = draw(&mut t, &mut i, st)?;
    frames.push(dev.shown());
    let mut drawn = dev.size();
    st.state(hash_of(&s));
    let mut press = |i: &mut Inspector, s: &mut State, k: K, ctrl: bool, st: &mut Stats| -> Result<bool, Viol> {
        let target = pointer(i);
        let redraw = i.on_key(key(k, ctrl));
        let b = state(i);
        invariants(i, &b)?;
        step(s, &b, k, ctrl, target, i.buffer.buffer.len())?;
        st.hit("keys");
        if b.stack.len() > s.stack.len() {
            st.hit("entered");
        }
        if b.stack.len() < s.stack.len() {
            st.hit("went_back");
        }
        if b.modal != s.modal {
            st.hit(match &b.modal {
                Modal::None => "dialogs_closed",
                Modal::GoTo(_) => "goto_dialog",
                Modal::History(_) => "history_dialog",
                Modal::Help => "help_dialog",
                Modal::Tree(..) => "interpretations_dialog",
                Modal::XRefs => "xrefs_dialog",
            });
        }
        st.max("history", b.stack.len() as u64);
        st.state(hash_of(&b));
        st.obs((hash_of(&b), redraw));
        *s = b;
        Ok(redraw)
    };
    for e in &c.ev {
        let mut redraw = false;
        match e {
            Ev::Key { k, ctrl } => {
                redraw = press(&mut i, &mut s, *k, *ctrl, st)?;
                if s.quit {
                    return Ok(frames);
                }
                if !redraw && drawn == dev.size() {
                    // nothing to draw: then drawing must not show anything new
                    let mut t2 = Terminal::new(Sim::new(drawn.0, drawn.1)).expect("harness: terminal");
                    let f = t2.draw(|f| ui::draw(f, &mut i)).expect("harness: terminal").buffer.clone();
                    if f != last {
                        return viol("stale-screen", format!("after {k:?} nothing is redrawn, but the screen is out of date: {:?}", last.diff(&f).first()));
                    }
                }
            }
            Ev::Size(x, y) => {
                dev.resize(*x, *y);
                st.fault("window_resized");
                if *x < 30 || *y < 10 {
                    st.fault("tiny_window");
                }
            }
            Ev::Resized => redraw = true,
            Ev::Idle(n) => st.sim_time_ns += *n as u128 * 1_000_000_000,
            Ev::Noise(_) => st.hit("other_terminal_events"),
        }
        if redraw {
            (s, last) = draw(&mut t, &mut i, st)?;
            frames.push(dev.shown());
            drawn = dev.size();
        }
    }
    match c.end {
        0 => {
            press(&mut i, &mut s, K::C('q'), false, st)?;
        }
        1 => {
            press(&mut i, &mut s, K::C('c'), true, st)?;
        }
        _ => {
            let n = s.stack.len() + 2;
            for _ in 0..n {
                if press(&mut i, &mut s, K::Esc, false, st)? && !s.quit {
                    (s, _) = draw(&mut t, &mut i, st)?;
                    frames.push(dev.shown());
                }
                if s.quit {
                    break;
                }
            }
            if !s.quit {
                return viol("cannot-leave", format!("{n} times Esc do not leave the viewer"));
            }
        }
    }
    Ok(frames)
}

// ---- the viewer's own loop ----------------------------------------------------------------------
struct Script {
    dev: Sim,
    ev: std::vec::IntoIter<Ev>,
    end: u8,
    next: Option<Event>,
    over: u64,
    clock: Rc<RefCell<u128>>,
}
impl crossterm::sim::Source for Script {
    fn poll(&mut self, timeout: Duration) -> io::Result<bool> {
        self.call("poll")?;
        if self.next.is_some() {
            return Ok(true);
        }
        self.next = Some(loop {
            match self.ev.next() {
                Some(Ev::Key { k, ctrl }) => break Event::Key(key(k, ctrl)),
                Some(Ev::Size(w, h)) => self.dev.resize(w, h),
                Some(Ev::Resized) => {
                    let (w, h) = self.dev.size();
                    break Event::Resize(w, h);
                }
                Some(Ev::Idle(_)) => {
                    *self.clock.borrow_mut() += timeout.as_nanos();
                    return Ok(false);
                }
                Some(Ev::Noise(n)) => {
                    break match n % 4 {
                        0 => Event::FocusGained,
                        1 => Event::FocusLost,
                        2 => Event::Paste("0x12 q".into()),
                        _ => Event::Mouse(MouseEvent { kind: MouseEventKind::Down(MouseButton::Left), column: 3, row: 3, modifiers: KeyModifiers::NONE }),
                    }
                }
                None => {
                    self.over += 1;
                    if self.over > 3000 {
                        panic!("simulated user: the viewer cannot be left");
                    }
                    break Event::Key(match self.end {
                        0 => key(K::C('q'), false),
                        1 => key(K::C('c'), true),
                        _ => key(K::Esc, false),
                    });
                }
            }
        });
        Ok(true)
    }
    fn read(&mut self) -> io::Result<Event> {
        self.call("read")?;
        Ok(self.next.take().expect("simulated terminal: read without an event would block"))
    }
}
impl Script {
    fn call(&mut self, what: &'static str) -> io::Result<()> {
        let mut d = self.dev.0.borrow_mut();
        d.calls += 1;
        if d.fail_at == Some(d.calls) {
            d.failed = Some(what);
            return Err(io::Error::from_raw_os_error(5));
        }
        Ok(())
    }
}

fn looped(c: &Case, w: &World, want: &[Shown], fail_at: Option<u64>, st: &mut Stats) -> Result<u64, Viol> {
    let i = Inspector::new(InspectableFlatbuffer { declarations: w.decl, buffer: w.buffer }, w.root);
    let dev = Sim::new(c.w, c.h);
    let mut t = Terminal::new(dev.clone()).expect("harness: terminal");
    {
        let mut d = dev.0.borrow_mut();
        d.keep_frames = true;
        d.calls = 0;
        d.fail_at = fail_at;
    }
    let clock = Rc::new(RefCell::new(0));
    crossterm::sim::install(Some(Box::new(Script {
        dev: dev.clone(),
        ev: c.ev.clone().into_iter(),
        end: c.end,
        next: None,
        over: 0,
        clock: clock.clone(),
    })));
    let r = planus_inspector::run_inspector(&mut t, i);
    crossterm::sim::install(None);
    st.sim_time_ns += *clock.borrow();
    st.hit("loops");
    let d = dev.0.borrow();
    st.obs((d.frames.len(), r.is_ok(), d.calls));
    if d.frames.len() > want.len() || d.frames[..] != want[..d.frames.len()] {
        let n = d.frames.iter().zip(want).position(|(a, b)| a != b).unwrap_or(want.len());
        return viol("loop-frames", format!("frame {n} of the viewer's loop is not what its state shows ({} frames, expected {})", d.frames.len(), want.len()));
    }
    match (d.failed, &r) {
        (Some(what), Ok(())) => return viol("error-ignored", format!("call {} ({what}) to the terminal failed, the viewer reports success", d.fail_at.unwrap())),
        (None, Err(e)) => return viol("loop-error", format!("the viewer ends with {e} though nothing failed")),
        (Some(what), Err(_)) => {
            st.fault(&format!("terminal_{what}_failed"));
        }
        (None, Ok(())) => {
            if d.frames.len() != want.len() {
                return viol("loop-frames", format!("the viewer's loop showed {} frames instead of {}", d.frames.len(), want.len()));
            }
        }
    }
    Ok(d.calls)
}

fn run(c: &Case, st: &mut Stats) -> Result<(), Viol> {
    let Some(w) = c.input.world() else {
        st.hit("schema_refused");
        return Ok(());
    };
    st.max("buffer_bytes", w.buffer.len() as u64);
    let frames = direct(c, &w, st)?;
    if c.looped {
        let n = looped(c, &w, &frames, None, st)?;
        if let Some(f) = c.fail_at {
            looped(c, &w, &frames, Some(1 + f % n), st)?;
        }
    }
    st.path(hash_of((&c.ev, hash_of(w.buffer))));
    Ok(())
}

pub fn size(rng: &mut Rng) -> (u16, u16) {
    match rng.below(8) {
        0 => (80, 24),
        1..=3 => (100 + rng.below(100) as u16, 16 + rng.below(50) as u16),
        4 => (rng.below(120) as u16, rng.below(40) as u16),
        5 => (1 + rng.below(12) as u16, 1 + rng.below(8) as u16),
        6 => (30 + rng.below(60) as u16, rng.below(20) as u16),
        _ => (*rng.pick(&[0, 1, 2, 45, 46, 47, 300]), *rng.pick(&[0, 1, 2, 3, 4, 5, 6, 7, 100])),
    }
}
/// Swarm: each session has its own habits.
pub fn events(rng: &mut Rng, n: usize) -> Vec<Ev> {
    let w: Vec<usize> = (0..12).map(|_| *rng.pick(&[0, 1, 1, 3, 8])).collect();
    let mut out = vec![];
    let k = |k: K| Ev::Key { k, ctrl: false };
    while out.len() < n {
        match rng.weighted(&[w[0] + 4, w[1], w[2], w[3], w[4], w[5], w[6], w[7], w[8], w[9], w[10], w[11]]) {
            0 => {
                let m = *rng.pick(&[K::Up, K::Down, K::Down, K::Down, K::Left, K::Right, K::PageUp, K::PageDown, K::Home, K::End]);
                let ctrl = rng.chance(1, 5);
                for _ in 0..1 + rng.below(6) {
                    out.push(Ev::Key { k: m, ctrl });
                }
            }
            1 => {
                // look for a pointer and follow it
                for _ in 0..rng.below(8) {
                    out.push(k(K::Down));
                }
                out.push(k(K::Enter));
            }
            2 => out.push(k(*rng.pick(&[K::Backspace, K::Backspace, K::Esc]))),
            3 => {
                out.push(k(K::C('g')));
                let hex: Vec<char> = "0123456789abcdefABCDEF".chars().collect();
                for _ in 0..*rng.pick(&[0, 1, 1, 2, 2, 2, 3, 16, 20]) {
                    out.push(k(K::C(*rng.pick(&hex))));
                    if rng.chance(1, 10) {
                        out.push(k(K::Backspace));
                    }
                }
                out.push(k(*rng.pick(&[K::Enter, K::Enter, K::Enter, K::Esc, K::C('g'), K::Tab])));
            }
            4 => {
                out.push(k(K::C('h')));
                for _ in 0..rng.below(5) {
                    out.push(k(*rng.pick(&[K::Up, K::Up, K::Down])));
                }
                out.push(k(*rng.pick(&[K::Enter, K::Enter, K::Esc, K::C('h'), K::C('c')])));
            }
            5 => {
                out.push(k(K::C('i')));
                for _ in 0..rng.below(5) {
                    out.push(k(*rng.pick(&[K::Up, K::Down, K::Down, K::Right, K::C('c')])));
                }
                out.push(k(*rng.pick(&[K::Enter, K::Enter, K::Esc, K::C('i')])));
            }
            6 => out.push(k(K::C('c'))),
            7 => out.push(k(K::Tab)),
            8 => {
                let (a, b) = size(rng);
                out.push(Ev::Size(a, b));
                if rng.chance(1, 3) {
                    // other keys come first
                    out.push(k(*rng.pick(&[K::Down, K::Up, K::Tab, K::C('?'), K::Enter])));
                }
                out.push(Ev::Resized);
            }
            9 => match rng.below(4) {
                0 => out.push(Ev::Idle(1 + rng.below(100) as u8)),
                1 => out.push(Ev::Resized),
                _ => out.push(Ev::Noise(rng.below(4) as u8)),
            },
            10 => {
                out.push(k(K::C('?')));
                for _ in 0..rng.below(3) {
                    out.push(k(*rng.pick(&[K::Up, K::Enter, K::Backspace, K::C('c'), K::C('x'), K::Tab, K::C('g'), K::C('h')])));
                }
            }
            _ => {
                let any = [
                    K::Up, K::Down, K::Left, K::Right, K::PageUp, K::PageDown, K::Home, K::End, K::Enter, K::Esc, K::Backspace, K::Tab,
                    K::BackTab, K::Delete, K::Insert, K::F(1), K::C('g'), K::C('x'), K::C('h'), K::C('i'), K::C('?'), K::C('c'), K::C('C'),
                    K::C('0'), K::C('f'), K::C('9'), K::C('z'), K::C(' '), K::C('é'), K::C('Q'),
                ];
                let ctrl = rng.chance(1, 6);
                let k = *rng.pick(&any);
                // ctrl-c ends the session too soon
                out.push(Ev::Key { k, ctrl: ctrl && k != K::C('c') });
            }
        }
    }
    out.truncate(n);
    out
}

impl Check for Sessions {
    type Case = Case;
    fn property(&self) -> &'static str {
        "C13"
    }
    fn runs(&self, tier: &str) -> (u64, u64) {
        let q = std::env::var("SIM_RUNS").ok().and_then(|x| x.parse().ok()).unwrap_or(40_000);
        if tier == "thorough" {
            (q * 100, 900)
        } else {
            (q, 60)
        }
    }
    fn gen(&self, seed: u64) -> Case {
        let mut rng = Rng::new(seed);
        let rng = &mut rng;
        let mut input = Input::random(rng, true);
        if rng.chance(1, 150) {
            input = input.deepened(*rng.pick(&[3, 300, 50_000]));
        }
        let (w, h) = if rng.chance(2, 3) { (100 + rng.below(80) as u16, 20 + rng.below(40) as u16) } else { size(rng) };
        let n = *rng.pick(&[5, 20, 40, 60, 120]);
        let mut ev = events(rng, n);
        if input.crowded() && rng.chance(2, 3) {
            // to the vtable, and ask what it means
            ev.splice(0..0, [K::Down, K::Enter, K::C('i')].map(|k| Ev::Key { k, ctrl: false }));
        }
        let looped = rng.chance(1, 3);
        Case { input, w, h, ev, end: rng.below(3) as u8, looped, fail_at: if looped && rng.chance(2, 3) { Some(rng.u64() >> 8) } else { None } }
    }
    fn run(&self, c: &Case, st: &mut Stats) -> Result<(), Viol> {
        foldhash::sim::set(1, 0);
        guarded(|| run(c, st))
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        let mut out = vec![];
        let n = c.ev.len();
        let mut size = n / 2;
        while size > 0 {
            for at in (0..n).step_by(size) {
                let mut x = c.clone();
                x.ev.drain(at..(at + size).min(n));
                out.push(x);
            }
            size /= 2;
        }
        if c.looped {
            out.push(Case { looped: false, fail_at: None, ..c.clone() });
            if c.fail_at.is_some() {
                out.push(Case { fail_at: None, ..c.clone() });
            }
        }
        if (c.w, c.h) != (120, 40) {
            out.push(Case { w: 120, h: 40, ..c.clone() });
        }
        if c.end != 0 {
            out.push(Case { end: 0, ..c.clone() });
        }
        for i in c.input.shrink() {
            out.push(Case { input: i, ..c.clone() });
        }
        out
    }
    fn rule(&self) -> &'static str {
        "a seeded session: a buffer written by planus or the independent encoder for a seeded schema, viewed with seeded keys, window sizes and redraws; a third of them also through the viewer's own event loop, with one failing terminal call; non-trivial: at least one key; distinct by events and buffer; distinct states are states of the viewer"
    }
    fn describe(&self, c: &Case) -> String {
        format!("{}\nwindow {}x{}, events {:?}, end {}, loop {}, failing call {:?}", c.input.describe(), c.w, c.h, c.ev, c.end, c.looped, c.fail_at)
    }
    fn per_run_timeout(&self) -> u64 {
        20
    }
    fn components(&self) -> serde_json::Value {
        components()
    }
}
pub fn components() -> serde_json::Value {
    serde_json::json!({
        "real": ["planus-inspector (Inspector, ui::draw, run_inspector)", "planus-buffer-inspection", "planus-translation", "planus-types", "planus and the generated code (writing half of the buffers)", "ratatui"],
        "simulated": ["the terminal (in-memory backend with injectable errors)", "keyboard, window size and clock (crossterm::event::poll/read answered by the script)", "other writers (independent encoder)"],
        "not_run": ["run_app's terminal set-up and restoration, which needs a tty"]
    })
}
