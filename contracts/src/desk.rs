//! A text terminal with a keyboard.

use async_trait::async_trait;
use endbasic_std::console::{CharsXY, ClearType, Console, Key};
use std::collections::VecDeque;
use std::io;

/// What was asked of the terminal.
#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Print(String),
    Write(String),
    Clear,
    Color(Option<u8>, Option<u8>),
    Locate(u16, u16),
    /// A key was waited for.
    Key,
}

/// Terminal on which lines do not wrap.
pub struct Desk {
    pub keys: VecDeque<Key>,
    pub interactive: bool,
    pub size: CharsXY,
    pub cells: Vec<Vec<char>>,
    pub x: usize,
    pub y: usize,
    /// Whether something was written or the cursor was moved outside of the screen.
    pub outside: bool,
    pub cursor: bool,
    pub alternate: bool,
    pub sync: bool,
    /// How many texts can be written before writing fails.
    pub writes_left: usize,
    /// Texts that were printed as lines.
    pub lines: Vec<String>,
    /// The contents and the cursor whenever a key was waited for.
    pub views: Vec<(Vec<String>, usize, usize)>,
    pub ops: Vec<Op>,
}

impl Desk {
    pub fn new(w: u16, h: u16) -> Self {
        Self {
            keys: VecDeque::new(),
            interactive: true,
            size: CharsXY::new(w, h),
            cells: vec![vec![' '; usize::from(w)]; usize::from(h)],
            x: 0,
            y: 0,
            outside: false,
            cursor: true,
            alternate: false,
            sync: true,
            writes_left: usize::MAX,
            lines: vec![],
            views: vec![],
            ops: vec![],
        }
    }

    fn put(&mut self, text: &str) {
        for ch in text.chars() {
            match self.cells.get_mut(self.y).and_then(|r| r.get_mut(self.x)) {
                Some(c) => *c = ch,
                None => self.outside = true,
            }
            self.x += 1;
        }
    }

    fn line_break(&mut self) {
        self.x = 0;
        if self.y + 1 >= usize::from(self.size.y) {
            self.cells.remove(0);
            self.cells.push(vec![' '; usize::from(self.size.x)]);
        } else {
            self.y += 1;
        }
    }
}

#[async_trait(?Send)]
impl Console for Desk {
    fn clear(&mut self, how: ClearType) -> io::Result<()> {
        let (x, y, w) = (self.x, self.y, usize::from(self.size.x));
        match how {
            ClearType::All => {
                self.cells.iter_mut().for_each(|r| r.fill(' '));
                (self.x, self.y) = (0, 0);
                self.ops.push(Op::Clear);
            }
            ClearType::CurrentLine => {
                self.cells[y].fill(' ');
                self.x = 0;
            }
            ClearType::PreviousChar => {
                if x > 0 {
                    self.x -= 1;
                    self.cells[y][x - 1] = ' ';
                }
            }
            ClearType::UntilNewLine => self.cells[y][x.min(w)..].fill(' '),
        }
        Ok(())
    }
    fn color(&self) -> (Option<u8>, Option<u8>) {
        (None, None)
    }
    fn set_color(&mut self, fg: Option<u8>, bg: Option<u8>) -> io::Result<()> {
        self.ops.push(Op::Color(fg, bg));
        Ok(())
    }
    fn enter_alt(&mut self) -> io::Result<()> {
        self.alternate = true;
        Ok(())
    }
    fn hide_cursor(&mut self) -> io::Result<()> {
        self.cursor = false;
        Ok(())
    }
    fn is_interactive(&self) -> bool {
        self.interactive
    }
    fn leave_alt(&mut self) -> io::Result<()> {
        self.alternate = false;
        Ok(())
    }
    fn locate(&mut self, pos: CharsXY) -> io::Result<()> {
        self.ops.push(Op::Locate(pos.x, pos.y));
        (self.x, self.y) = (pos.x.into(), pos.y.into());
        self.outside |= pos.x >= self.size.x || pos.y >= self.size.y;
        Ok(())
    }
    fn move_within_line(&mut self, off: i16) -> io::Result<()> {
        match self.x.checked_add_signed(off.into()) {
            Some(x) => self.x = x,
            None => self.outside = true,
        }
        Ok(())
    }
    fn print(&mut self, text: &str) -> io::Result<()> {
        self.lines.push(text.to_owned());
        self.ops.push(Op::Print(text.to_owned()));
        self.put(text);
        self.line_break();
        Ok(())
    }
    async fn poll_key(&mut self) -> io::Result<Option<Key>> {
        Ok(self.keys.pop_front())
    }
    async fn read_key(&mut self) -> io::Result<Key> {
        self.ops.push(Op::Key);
        if self.views.len() < 10_000 {
            self.views.push((self.cells.iter().map(|r| r.iter().collect()).collect(), self.x, self.y));
        }
        self.keys.pop_front().ok_or_else(|| io::Error::new(io::ErrorKind::UnexpectedEof, "No keys"))
    }
    fn show_cursor(&mut self) -> io::Result<()> {
        self.cursor = true;
        Ok(())
    }
    fn size_chars(&self) -> io::Result<CharsXY> {
        Ok(self.size)
    }
    fn write(&mut self, text: &str) -> io::Result<()> {
        if self.writes_left == 0 {
            return Err(io::Error::other("No more writes"));
        }
        self.writes_left -= 1;
        self.ops.push(Op::Write(text.to_owned()));
        self.put(text);
        Ok(())
    }
    fn sync_now(&mut self) -> io::Result<()> {
        Ok(())
    }
    fn set_sync(&mut self, enabled: bool) -> io::Result<bool> {
        Ok(std::mem::replace(&mut self.sync, enabled))
    }
}
