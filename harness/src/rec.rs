//! A rendering backend that records every draw call it receives.

use layout::core::format::{ClipHandle, RenderBackend};
use layout::core::geometry::Point;
use layout::core::style::StyleAttr;

pub type P2 = (f64, f64);

#[derive(Clone, Debug, PartialEq)]
pub struct Look {
    pub stroke: String,
    pub width: usize,
    pub fill: Option<String>,
    pub rounded: usize,
    pub font: usize,
}

impl Look {
    pub fn of(s: &StyleAttr) -> Look {
        Look {
            stroke: s.line_color.to_web_color(),
            width: s.line_width,
            fill: s.fill_color.map(|c| c.to_web_color()),
            rounded: s.rounded,
            font: s.font_size,
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Rect {
        xy: P2,
        size: P2,
        look: Look,
        props: Option<String>,
        clip: Option<usize>,
    },
    Line {
        a: P2,
        b: P2,
        look: Look,
        props: Option<String>,
    },
    Circle {
        c: P2,
        size: P2,
        look: Look,
        props: Option<String>,
    },
    Text {
        c: P2,
        text: String,
        look: Look,
    },
    Arrow {
        path: Vec<(P2, P2)>,
        dashed: bool,
        head: (bool, bool),
        look: Look,
        props: Option<String>,
        text: String,
    },
    Clip {
        xy: P2,
        size: P2,
        rounded: usize,
        handle: usize,
    },
}

#[derive(Default, Debug)]
pub struct Recorder {
    pub ops: Vec<Op>,
    clips: usize,
}

pub fn p2(p: Point) -> P2 {
    (p.x, p.y)
}

impl Recorder {
    pub fn new() -> Self {
        Self::default()
    }
}

impl RenderBackend for Recorder {
    fn draw_rect(
        &mut self,
        xy: Point,
        size: Point,
        look: &StyleAttr,
        properties: Option<String>,
        clip: Option<ClipHandle>,
    ) {
        self.ops.push(Op::Rect {
            xy: p2(xy),
            size: p2(size),
            look: Look::of(look),
            props: properties,
            clip,
        });
    }
    fn draw_line(
        &mut self,
        start: Point,
        stop: Point,
        look: &StyleAttr,
        properties: Option<String>,
    ) {
        self.ops.push(Op::Line {
            a: p2(start),
            b: p2(stop),
            look: Look::of(look),
            props: properties,
        });
    }
    fn draw_circle(
        &mut self,
        xy: Point,
        size: Point,
        look: &StyleAttr,
        properties: Option<String>,
    ) {
        self.ops.push(Op::Circle {
            c: p2(xy),
            size: p2(size),
            look: Look::of(look),
            props: properties,
        });
    }
    fn draw_text(&mut self, xy: Point, text: &str, look: &StyleAttr) {
        self.ops.push(Op::Text {
            c: p2(xy),
            text: text.to_string(),
            look: Look::of(look),
        });
    }
    fn draw_arrow(
        &mut self,
        path: &[(Point, Point)],
        dashed: bool,
        head: (bool, bool),
        look: &StyleAttr,
        properties: Option<String>,
        text: &str,
    ) {
        self.ops.push(Op::Arrow {
            path: path.iter().map(|s| (p2(s.0), p2(s.1))).collect(),
            dashed,
            head,
            look: Look::of(look),
            props: properties,
            text: text.to_string(),
        });
    }
    fn create_clip(
        &mut self,
        xy: Point,
        size: Point,
        rounded_px: usize,
    ) -> ClipHandle {
        // Deliberately not 0,1,2..: a caller that invents handles is visible.
        let handle = 1009 + 37 * self.clips;
        self.clips += 1;
        self.ops.push(Op::Clip {
            xy: p2(xy),
            size: p2(size),
            rounded: rounded_px,
            handle,
        });
        handle
    }
}
