//! Graphical consoles on a simulated LCD.

use crate::basic::Session;
use async_trait::async_trait;
use endbasic_std::console::graphics::InputOps;
use endbasic_std::console::{GraphicsConsole, Key, RGB};
use endbasic_std::gfx::lcd::fonts::Font;
use endbasic_std::gfx::lcd::{BufferedLcd, Lcd, LcdSize, LcdXY, RGB565Pixel};
use endbasic_std::sound::NoopAudioOps;
use std::cell::RefCell;
use std::io;
use std::rc::Rc;

/// Contents of the LCD.
pub struct Panel {
    pub width: usize,
    pub height: usize,
    pub pixels: Vec<RGB565>,
}

pub type RGB565 = [u8; 2];

/// An LCD that checks the commands it gets.
pub struct FakeLcd {
    panel: Rc<RefCell<Panel>>,
}

pub fn encode((r, g, b): RGB) -> RGB565 {
    let v = (u16::from(r) >> 3) << 11 | (u16::from(g) >> 2) << 5 | (u16::from(b) >> 3);
    v.to_be_bytes()
}

impl Lcd for FakeLcd {
    type Pixel = RGB565Pixel;

    fn info(&self) -> (LcdSize, usize) {
        let p = self.panel.borrow();
        (LcdSize { width: p.width, height: p.height }, 2)
    }

    fn decode(&self, p: &[u8]) -> RGB {
        let v = u16::from_be_bytes([p[0], p[1]]);
        ((v >> 11 << 3) as u8, (v >> 5 << 2) as u8, (v << 3) as u8)
    }

    fn encode(&self, rgb: RGB) -> RGB565Pixel {
        RGB565Pixel(encode(rgb))
    }

    fn set_data(&mut self, a: LcdXY, b: LcdXY, data: &[u8]) -> io::Result<()> {
        let mut p = self.panel.borrow_mut();
        assert!(a.x <= b.x && a.y <= b.y, "inverted window");
        assert!(b.x < p.width && b.y < p.height, "window out of the LCD");
        assert_eq!((b.x - a.x + 1) * (b.y - a.y + 1) * 2, data.len(), "wrong amount of data");
        let mut i = 0;
        for y in a.y..=b.y {
            for x in a.x..=b.x {
                let k = y * p.width + x;
                p.pixels[k] = [data[i], data[i + 1]];
                i += 2;
            }
        }
        Ok(())
    }
}

/// Input that never comes.
pub struct NoInput;

#[async_trait(?Send)]
impl InputOps for NoInput {
    async fn poll_key(&mut self) -> io::Result<Option<Key>> {
        Ok(None)
    }
    async fn read_key(&mut self) -> io::Result<Key> {
        Ok(Key::EofOrDelete)
    }
}

pub type ScreenConsole = GraphicsConsole<NoInput, BufferedLcd<FakeLcd>, NoopAudioOps>;

pub fn console(width: usize, height: usize, font: &'static Font) -> (ScreenConsole, Rc<RefCell<Panel>>) {
    let panel = Rc::from(RefCell::from(Panel { width, height, pixels: vec![[1, 2]; width * height] }));
    let lcd = BufferedLcd::new(FakeLcd { panel: panel.clone() }, font);
    (GraphicsConsole::new(NoInput, lcd, NoopAudioOps, None, None).expect("must start"), panel)
}

/// A session on an LCD.
pub fn session(width: usize, height: usize, font: &'static Font) -> (Session<ScreenConsole>, Rc<RefCell<Panel>>) {
    let (console, panel) = console(width, height, font);
    (Session::with(console, 100_000, |b| b.build()), panel)
}
