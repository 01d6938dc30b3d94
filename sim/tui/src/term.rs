//! A terminal under control: what is drawn ends in memory, events come from a script, any call
//! can fail.
use ratatui::{
    backend::{Backend, ClearType, TestBackend, WindowSize},
    buffer::{Buffer, Cell},
    layout::{Position, Size},
};
use std::{cell::RefCell, io, rc::Rc};

/// Shared between the program's side and the simulator's side of the terminal.
pub struct Dev {
    pub screen: TestBackend,
    /// every frame that was completely drawn
    pub frames: Vec<Shown>,
    pub keep_frames: bool,
    pub calls: u64,
    /// the call (counted from 1) that fails
    pub fail_at: Option<u64>,
    pub failed: Option<&'static str>,
}
#[derive(Clone, PartialEq, Debug)]
pub struct Shown {
    pub cells: Buffer,
    pub cursor: Option<(u16, u16)>,
}
pub fn shown(t: &TestBackend) -> Shown {
    let p = t.cursor_position();
    Shown { cells: t.buffer().clone(), cursor: if t.cursor_visible() { Some((p.x, p.y)) } else { None } }
}
#[derive(Clone)]
pub struct Sim(pub Rc<RefCell<Dev>>);
impl Sim {
    pub fn new(w: u16, h: u16) -> Sim {
        Sim(Rc::new(RefCell::new(Dev {
            screen: TestBackend::new(w, h),
            frames: vec![],
            keep_frames: false,
            calls: 0,
            fail_at: None,
            failed: None,
        })))
    }
    pub fn resize(&self, w: u16, h: u16) {
        self.0.borrow_mut().screen.resize(w, h);
    }
    pub fn shown(&self) -> Shown {
        shown(&self.0.borrow().screen)
    }
    pub fn size(&self) -> (u16, u16) {
        let s = self.0.borrow().screen.size().unwrap();
        (s.width, s.height)
    }
    fn call(&self, what: &'static str) -> io::Result<std::cell::RefMut<'_, Dev>> {
        let mut d = self.0.borrow_mut();
        d.calls += 1;
        if d.fail_at == Some(d.calls) {
            d.failed = Some(what);
            return Err(io::Error::from_raw_os_error(5));
        }
        Ok(d)
    }
}
impl Backend for Sim {
    type Error = io::Error;
    fn draw<'a, I>(&mut self, content: I) -> io::Result<()>
    where
        I: Iterator<Item = (u16, u16, &'a Cell)>,
    {
        let Ok(()) = self.call("draw")?.screen.draw(content);
        Ok(())
    }
    fn hide_cursor(&mut self) -> io::Result<()> {
        let Ok(()) = self.call("hide_cursor")?.screen.hide_cursor();
        Ok(())
    }
    fn show_cursor(&mut self) -> io::Result<()> {
        let Ok(()) = self.call("show_cursor")?.screen.show_cursor();
        Ok(())
    }
    fn get_cursor_position(&mut self) -> io::Result<Position> {
        let Ok(p) = self.call("get_cursor_position")?.screen.get_cursor_position();
        Ok(p)
    }
    fn set_cursor_position<P: Into<Position>>(&mut self, p: P) -> io::Result<()> {
        let Ok(()) = self.call("set_cursor_position")?.screen.set_cursor_position(p);
        Ok(())
    }
    fn clear(&mut self) -> io::Result<()> {
        let Ok(()) = self.call("clear")?.screen.clear();
        Ok(())
    }
    fn clear_region(&mut self, t: ClearType) -> io::Result<()> {
        let Ok(()) = self.call("clear_region")?.screen.clear_region(t);
        Ok(())
    }
    fn size(&self) -> io::Result<Size> {
        let Ok(s) = self.call("size")?.screen.size();
        Ok(s)
    }
    fn window_size(&mut self) -> io::Result<WindowSize> {
        let Ok(s) = self.call("window_size")?.screen.window_size();
        Ok(s)
    }
    fn flush(&mut self) -> io::Result<()> {
        let mut d = self.call("flush")?;
        let Ok(()) = d.screen.flush();
        if d.keep_frames {
            let s = shown(&d.screen);
            d.frames.push(s);
        }
        Ok(())
    }
}
