//! The monitors of the pipeline properties.
use vh::runner::Prop;

pub mod cli;
pub mod curves;
pub mod diag;
pub mod equiv;
pub mod meta;
pub mod picture;
pub mod records;
pub mod scope;
pub mod stress;
pub mod svgdoc;
pub mod text;

const G: u64 = 1_000_000_000;

const TEXT_RULE: &str = "a distinct text of more than a handful of tokens";
const GRAPH_RULE: &str =
    "a distinct program whose graph has at least two nodes, drawn and judged";

macro_rules! prop {
    ($id:expr, $quick:expr, $thorough:expr, $fuel:expr, $run:path, $rule:expr, $as:expr) => {
        Prop {
            id: $id,
            quick: $quick,
            thorough: $thorough,
            fuel: $fuel,
            run: $run,
            rule: $rule,
            assumptions: $as,
        }
    };
}

const PICTURE: &[&str] = &[
    "nodes and edges are identified by unique labels and pen widths that the workload gives them",
    "graphs of up to 45 (quick) or 60 (thorough) nodes",
];

pub static PROPS: &[Prop] = &[
    prop!("C01", 100_000, 1_500_000, 2 * G, text::totality, "a distinct text of more than 8 characters", &["texts of up to about a million characters"]),
    prop!("C02", 400_000, 4_000_000, 2 * G, text::fidelity, TEXT_RULE, &["constructs that the documentation leaves open are not generated"]),
    prop!("C03", 300_000, 2_500_000, 2 * G, text::rejection, "a distinct text that the reference recogniser calls malformed", &["texts that the reference recogniser calls unspecified are not judged"]),
    prop!("C04", 800_000, 8_000_000, 2 * G, scope::scoping, GRAPH_RULE, &["up to 40 nodes and 64 levels of scopes"]),
    prop!("C05", 150_000, 3_000_000, 10 * G, stress::renders, "a distinct (flags, program with nodes) that parsed and was drawn", &["graphs of up to 300 nodes; step budget of 10 G executed edges"]),
    prop!("C06", 40_000, 600_000, 10 * G, picture::nodes, GRAPH_RULE, PICTURE),
    prop!("C07", 40_000, 600_000, 10 * G, picture::edges, GRAPH_RULE, PICTURE),
    prop!("C08", 40_000, 600_000, 10 * G, picture::disjoint, GRAPH_RULE, PICTURE),
    prop!("C09", 40_000, 600_000, 10 * G, picture::flow, GRAPH_RULE, PICTURE),
    prop!("C10", 40_000, 600_000, 10 * G, picture::viewport, GRAPH_RULE, PICTURE),
    prop!("C11", 60_000, 600_000, 5 * G, svgdoc::document, "a distinct document of a graph, or of more than two draw calls", &["properties given by the caller are well-formed attributes"]),
    prop!("C12", 300_000, 800_000, 2 * G, svgdoc::transcript, "a distinct document of more than two draw calls", &["properties given by the caller are well-formed attributes"]),
    prop!("C13", 10_000, 250_000, 10 * G, meta::deterministic, "a distinct program, drawn repeatedly", &["graphs of up to 30 nodes"]),
    prop!("C14", 15_000, 300_000, 10 * G, meta::flags, "a distinct program, drawn under five combinations of flags", &["graphs of up to 30 nodes"]),
    prop!("C15", 400_000, 800_000, 10 * G, records::records, "a distinct program of records", &["the room of a text is its longest line and its number of lines times the font size", "well-formed labels nested up to 60 deep, of up to 280 fields"]),
    prop!("C16", 40_000, 600_000, 10 * G, records::attach, GRAPH_RULE, PICTURE),
    prop!("C22", 200_000, 400_000, 2 * G, scope::colours, "a distinct colour text", &["colour texts that start with # and have neither 6 nor 8 digits are not judged"]),
    prop!("C23", 4_000, 80_000, 10 * G, cli::tool_writes, "a distinct (program, flags, fault)", &["faults that need no privileges", "the exit status of the tool is not judged"]),
    prop!("C24", 300_000, 800_000, 2 * G, picture::sizes, "a distinct program of labelled shapes", &["the room of a text is its longest line and its number of lines times the font size"]),
    prop!("C25", 40_000, 600_000, 10 * G, picture::edge_labels, GRAPH_RULE, PICTURE),
    prop!("C30", 600_000, 4_000_000, 2 * G, diag::located, "a distinct malformed text whose report was read", &["errors that are planted into well-formed texts, so that their place is known", "a tab or a wide character counts as one column"]),
    prop!("C31", 300_000, 6_000_000, 2 * G, diag::dumped, "a distinct program of more than one statement", &["names without line breaks"]),
    prop!("C32", 40_000, 600_000, 10 * G, curves::curves, GRAPH_RULE, PICTURE),
    prop!("C33", 20_000, 300_000, 10 * G, equiv::looks, "a distinct program, drawn with three sets of looks", &["graphs of up to 30 nodes"]),
    prop!("C34", 60_000, 900_000, 10 * G, equiv::flat, "a distinct program of more than one node, drawn as it is and in flat form", &["graphs of up to 40 nodes and 80 edges"]),
];
