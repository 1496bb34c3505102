//! Reads programs from standard input and writes the drawing of each one to
//! standard output. A request is a line `BITS LENGTH` and LENGTH bytes of
//! text; an answer is a line `ok LENGTH` or `err LENGTH` and LENGTH bytes.

use layout::backends::svg::SVGWriter;
use layout::gv::{DotParser, GraphBuilder};
use std::io::{BufRead, Read, Write};

fn draw(text: &str, bits: usize) -> Result<String, String> {
    let g = DotParser::new(text).process()?;
    let mut b = GraphBuilder::new();
    b.visit_graph(&g);
    let mut vg = b.get();
    let mut w = SVGWriter::new();
    vg.do_it(bits & 1 != 0, bits & 2 != 0, bits & 4 != 0, &mut w);
    Ok(w.finalize())
}

fn serve() {
    let mut input = std::io::stdin().lock();
    let mut out = std::io::stdout().lock();
    let mut head = String::new();
    loop {
        head.clear();
        if input.read_line(&mut head).unwrap() == 0 {
            return;
        }
        let mut w = head.split_whitespace().map(|x| x.parse::<usize>().unwrap());
        let (bits, len) = (w.next().unwrap(), w.next().unwrap());
        let mut text = vec![0; len];
        input.read_exact(&mut text).unwrap();
        let text = String::from_utf8(text).unwrap();
        let (kind, s) = match draw(&text, bits) {
            Ok(s) => ("ok", s),
            Err(e) => ("err", e),
        };
        writeln!(out, "{} {}", kind, s.len()).unwrap();
        out.write_all(s.as_bytes()).unwrap();
        out.flush().unwrap();
    }
}

fn main() {
    std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(serve)
        .unwrap()
        .join()
        .unwrap();
}
