//! Drives the pipeline under test: text -> AST -> graph -> layout -> canvas.

use crate::rec::{Op, Recorder};
use layout::backends::svg::SVGWriter;
use layout::core::format::{ClipHandle, RenderBackend};
use layout::core::geometry::Point;
use layout::core::style::StyleAttr;
use layout::gv::parser::ast;
use layout::gv::{DotParser, GraphBuilder};
use layout::topo::layout::VisualGraph;

#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub struct Flags {
    pub debug: bool,
    pub no_opt: bool,
    pub no_layout: bool,
}

impl Flags {
    pub fn from_bits(b: usize) -> Flags {
        Flags {
            debug: b & 1 != 0,
            no_opt: b & 2 != 0,
            no_layout: b & 4 != 0,
        }
    }
}

pub fn parse(text: &str) -> Result<ast::Graph, String> {
    DotParser::new(text).process()
}

pub fn build(g: &ast::Graph) -> VisualGraph {
    let mut b = GraphBuilder::new();
    b.visit_graph(g);
    b.get()
}

pub fn record(vg: &mut VisualGraph, f: Flags) -> Vec<Op> {
    let mut r = Recorder::new();
    vg.do_it(f.debug, f.no_opt, f.no_layout, &mut r);
    r.ops
}

pub fn svg(vg: &mut VisualGraph, f: Flags) -> String {
    let mut w = SVGWriter::new();
    vg.do_it(f.debug, f.no_opt, f.no_layout, &mut w);
    w.finalize()
}

/// The drawings of graphs that one builder gives out, each written out twice.
pub fn again(text: &str, f: Flags) -> Result<Vec<String>, String> {
    let g = parse(text)?;
    let mut b = GraphBuilder::new();
    b.visit_graph(&g);
    let mut first = b.get();
    let mut second = b.get();
    let mut out = Vec::new();
    for vg in [&mut first, &mut second] {
        let mut w = SVGWriter::new();
        vg.do_it(f.debug, f.no_opt, f.no_layout, &mut w);
        out.push(w.finalize());
        out.push(w.finalize());
    }
    Ok(out)
}

/// Parse, build and lay out; the recorded draw calls.
pub fn ops_of(text: &str, f: Flags) -> Result<Vec<Op>, String> {
    let g = parse(text)?;
    Ok(record(&mut build(&g), f))
}

pub fn svg_of(text: &str, f: Flags) -> Result<String, String> {
    let g = parse(text)?;
    Ok(svg(&mut build(&g), f))
}

/// A backend that passes each call on to two others.
pub struct Tee {
    pub rec: Recorder,
    pub svg: SVGWriter,
    /// The handle that the recorder gave for each clip of the SVG writer.
    handles: Vec<(ClipHandle, ClipHandle)>,
}

impl Default for Tee {
    fn default() -> Self {
        Self::new()
    }
}

impl Tee {
    pub fn new() -> Tee {
        Tee {
            rec: Recorder::new(),
            svg: SVGWriter::new(),
            handles: Vec::new(),
        }
    }
}

impl RenderBackend for Tee {
    fn draw_rect(
        &mut self,
        xy: Point,
        size: Point,
        look: &StyleAttr,
        properties: Option<String>,
        clip: Option<ClipHandle>,
    ) {
        let back = clip.map(|c| {
            self.handles
                .iter()
                .find(|h| h.0 == c)
                .expect("a clip handle that the backend never gave out")
                .1
        });
        self.rec.draw_rect(xy, size, look, properties.clone(), clip);
        self.svg.draw_rect(xy, size, look, properties, back);
    }
    fn draw_line(
        &mut self,
        start: Point,
        stop: Point,
        look: &StyleAttr,
        properties: Option<String>,
    ) {
        self.rec.draw_line(start, stop, look, properties.clone());
        self.svg.draw_line(start, stop, look, properties);
    }
    fn draw_circle(
        &mut self,
        xy: Point,
        size: Point,
        look: &StyleAttr,
        properties: Option<String>,
    ) {
        self.rec.draw_circle(xy, size, look, properties.clone());
        self.svg.draw_circle(xy, size, look, properties);
    }
    fn draw_text(&mut self, xy: Point, text: &str, look: &StyleAttr) {
        self.rec.draw_text(xy, text, look);
        self.svg.draw_text(xy, text, look);
    }
    fn draw_arrow(
        &mut self,
        path: &[(Point, Point)],
        dashed: bool,
        head: (bool, bool),
        look: &StyleAttr,
        properties: Option<String>,
        text: &str,
    ) {
        self.rec
            .draw_arrow(path, dashed, head, look, properties.clone(), text);
        self.svg.draw_arrow(path, dashed, head, look, properties, text);
    }
    fn create_clip(
        &mut self,
        xy: Point,
        size: Point,
        rounded_px: usize,
    ) -> ClipHandle {
        let a = self.rec.create_clip(xy, size, rounded_px);
        let b = self.svg.create_clip(xy, size, rounded_px);
        self.handles.push((a, b));
        a
    }
}

/// Lay out once; the recorded draw calls and the document.
pub fn both(vg: &mut VisualGraph, f: Flags) -> (Vec<Op>, String) {
    let mut t = Tee::new();
    vg.do_it(f.debug, f.no_opt, f.no_layout, &mut t);
    (t.rec.ops, t.svg.finalize())
}
