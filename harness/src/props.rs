use crate::monitor::Prop;
use crate::*;

pub static PROPS: &[Prop] = &[
    Prop {
        id: "P01",
        run: p01::run,
        quick: 80000,
        thorough: 400000,
        rule: "a random well-formed file with one instance of each supported kind in turn and up to 14 (40) further ones, any order, numbering, layout and spelling; counted once per distinct file text",
        need: &[("supported instances compared", 10000)],
        assumptions: &["strings without apostrophes and backslashes, finite reals"],
        level: "exploration",
    },
    Prop {
        id: "P02",
        run: p01::run02,
        quick: 80000,
        thorough: 400000,
        rule: "a random file with opaque instances between supported ones; counted once per distinct opaque body",
        need: &[("opaque instances compared", 10000), ("with a semicolon inside of a string or comment", 500)],
        assumptions: &[],
        level: "exploration",
    },
    Prop {
        id: "P03",
        run: robust::run03,
        quick: 50000,
        thorough: 250000,
        rule: "a random file, a model of the builder or a model of the construction API; counted once per distinct text",
        need: &[("loaded files saved, reloaded and saved again", 4000)],
        assumptions: &["references of API-made models are in place", "finite reals"],
        level: "exploration",
    },
    Prop {
        id: "P04",
        run: robust::run04,
        quick: 45000,
        thorough: 250000,
        rule: "a mutated, spliced, oversized or deeply nested text, or an instance with one attribute replaced by a hostile token; counted once per distinct text",
        need: &[("mutated texts", 10000), ("accepted and saved", 1000), ("refused with an error", 5000), ("long or deeply nested texts", 50)],
        assumptions: &["each text gets 60 s of processor time and 2 MB of stack"],
        level: "exploration",
    },
    Prop {
        id: "P05",
        run: robust::run05,
        quick: 8000,
        thorough: 40000,
        rule: "a random file with its cut, extended, section-less, number-repeating and slightly damaged variants; counted once per distinct file",
        need: &[("instances accounted for", 5000), ("cut files refused", 20000), ("files with a repeated number refused", 1000), ("damaged files accepted completely", 5000), ("damaged files refused", 5000)],
        assumptions: &[],
        level: "exploration",
    },
    Prop {
        id: "P06",
        run: robust::run06,
        quick: 18000,
        thorough: 150000,
        rule: "one type-checked reference attribute in turn, made to point to a wrong kind or a missing instance; counted once per attribute and wrong kind",
        need: &[("bad references refused", 10000), ("control files accepted", 2000)],
        assumptions: &["the table of allowed kinds in schema.rs"],
        level: "exploration",
    },
    Prop {
        id: "P07",
        run: robust::run07,
        quick: 48000,
        thorough: 240000,
        rule: "one type-checked reference attribute in turn, pointing to each allowed kind and to an unsupported one, before and after; counted once per attribute, kind and direction",
        need: &[("target before the reference", 5000), ("target after the reference", 5000), ("reference to an unsupported kind", 2000)],
        assumptions: &["the table of allowed kinds in schema.rs"],
        level: "exploration",
    },
    Prop {
        id: "P08",
        run: robust::run08,
        quick: 40000,
        thorough: 200000,
        rule: "a random file in random layouts and orders against its plain form; counted once per distinct text",
        need: &[("variants with comments", 5000), ("comments", 20000)],
        assumptions: &[],
        level: "exploration",
    },
    Prop {
        id: "P09",
        run: values::run09,
        quick: 120000,
        thorough: 500000,
        rule: "a random file with hostile texts in each text attribute in turn, or a model of the construction API with hostile texts; counted once per distinct text",
        need: &[("texts read from a file", 20000), ("texts with apostrophes passed on", 10000), ("instances read back after loading", 5000)],
        assumptions: &["texts without backslashes", "texts with apostrophes are compared in saved form only (see the known finding)"],
        level: "exploration",
    },
    Prop {
        id: "P10",
        run: values::run10,
        quick: 120000,
        thorough: 500000,
        rule: "a random file with extreme numbers in each numeric attribute in turn, or a model of the construction API with extreme numbers; counted once per distinct text",
        need: &[("numbers read from a file", 50000), ("numbers saved and read again", 50000), ("instances read back after loading", 5000)],
        assumptions: &["finite reals"],
        level: "exploration",
    },
    Prop {
        id: "P11",
        run: values::run11,
        quick: 48000,
        thorough: 200000,
        rule: "a file with near-by ids or one invalid id, fresh ids of two threads, or the objects of two models; counted once per distinct text",
        need: &[("ids kept", 20000), ("invalid ids passed on as they were", 500), ("fresh ids made by concurrent threads", 100000), ("ids of made objects", 10000)],
        assumptions: &["ids of objects are compared within each case"],
        level: "exploration",
    },
    Prop {
        id: "P12",
        run: store::run,
        quick: 72000,
        thorough: 300000,
        rule: "a random history of store operations on a new or loaded model; counted once per distinct history",
        need: &[
            ("insertions without a number", 10000),
            ("insertions over a stored value", 2000),
            ("removals of a stored value", 2000),
            ("in-place edits", 2000),
            ("stored values compared", 100000),
        ],
        assumptions: &["instance numbers below the largest representable one"],
        level: "exploration",
    },
    Prop {
        id: "P13",
        run: build::run13,
        quick: 16000,
        thorough: 60000,
        rule: "a random builder program; counted once per distinct program",
        need: &[("references in place", 50000), ("products in order", 5000), ("built models loaded", 2000)],
        assumptions: &["names without backslashes, finite numbers, directions of some length"],
        level: "exploration",
    },
    Prop {
        id: "P14",
        run: build::run14,
        quick: 32000,
        thorough: 120000,
        rule: "a random builder program with shared, unused and repeated types, materials, openings and property sets; counted once per distinct program",
        need: &[("parts aggregated", 3000), ("elements contained", 3000), ("openings voiding", 1000), ("windows filling", 1000), ("property sets given", 500)],
        assumptions: &[],
        level: "exploration",
    },
    Prop {
        id: "P15",
        run: build::run15,
        quick: 36000,
        thorough: 140000,
        rule: "a random builder program without transforms; counted once per distinct program",
        need: &[("places checked", 5000), ("shapes checked", 5000)],
        assumptions: &["shapes with extent, directions of some length"],
        level: "exploration",
    },
    Prop {
        id: "P16",
        run: build::run16,
        quick: 24000,
        thorough: 70000,
        rule: "a random builder program, run without and with its transforms; counted once per distinct program",
        need: &[("pieces moved", 3000), ("pieces at rest", 3000), ("openings and windows moved", 1000), ("pieces moved several times", 300)],
        assumptions: &["shapes with extent, directions of some length", "the transformation of a mapped shape is applied after its origin, as common viewers do"],
        level: "exploration",
    },
    Prop {
        id: "P17",
        run: queries::run17,
        quick: 90000,
        thorough: 400000,
        rule: "a random project structure with random relations, and every query about every object; counted once per distinct file",
        need: &[
            ("parts found", 10000),
            ("elements found", 10000),
            ("types found", 5000),
            ("openings found", 3000),
            ("material layers found", 3000),
            ("material constituents found", 3000),
            ("empty answers", 10000),
        ],
        assumptions: &["an element of which the type is asked has one of a supported kind", "an element has at most one type"],
        level: "exploration",
    },
    Prop {
        id: "P18",
        run: queries::run18,
        quick: 200000,
        thorough: 500000,
        rule: "a random file with geometry of each kind in turn, and the view of every geometric instance and product; counted once per distinct file",
        need: &[("parts of views compared", 100000), ("optional parts shown", 20000), ("optional parts absent", 20000)],
        assumptions: &["references to supported kinds, except for items of shapes", "curves have points, all of one dimension"],
        level: "exploration",
    },
    Prop {
        id: "P19",
        run: robust::run19,
        quick: 400000,
        thorough: 1000000,
        rule: "a random header, loaded, saved and changed through the API; counted once per distinct text",
        need: &[("headers kept", 10000), ("headers set by the API kept", 10000), ("odd words of the header refused", 10000)],
        assumptions: &[],
        level: "exploration",
    },
    Prop {
        id: "P20",
        run: robust::run20,
        quick: 4000,
        thorough: 14000,
        rule: "a random good or bad file in a scratch directory; counted once per distinct content",
        need: &[("files loaded from disk", 1000), ("file that is not UTF-8", 1000), ("file that was cut off", 1000), ("missing file", 1000)],
        assumptions: &[],
        level: "exploration",
    },
    Prop {
        id: "P21",
        run: values::run21,
        quick: 100000,
        thorough: 400000,
        rule: "a random file with one instance of each supported kind in turn; counted once per distinct text",
        need: &[("instances read through their typed form", 50000), ("listings compared", 100000)],
        assumptions: &["coordinates of directions are read through their debug output", "attributes without public access (names of property values, parts of voiding and filling relations) are covered by P01 only"],
        level: "exploration",
    },
    Prop {
        id: "P22",
        run: ctor::run22,
        quick: 300000,
        thorough: 800000,
        rule: "a model made by the construction API: each kind's constructor in turn with a random sequence of setters, and up to 3 (7) further ones; counted once per distinct saved text",
        need: &[("instances compared with their constructor and setter arguments", 20000), ("setter calls", 20000)],
        assumptions: &["kinds without a constructor (addresses, roles, derived units) only as targets of references"],
        level: "exploration",
    },
    Prop {
        id: "P23",
        run: alone::run,
        quick: 4000,
        thorough: 30000,
        rule: "two to five jobs (loading a good or damaged text or file, a header, a time near a change of the local time, queries, views, a history of the store, a program of the builder or of the construction API), each once in a fresh process in another time zone, locale and directory, and several times here, in any order, with other work in between, on one to four threads; counted once per distinct digest of a job",
        need: &[("fresh processes", 1000), ("jobs at the same time as others", 1000), ("jobs after others", 500), ("kept models saved again", 500), ("jobs with a model", 4000), ("jobs whose text is refused", 200)],
        assumptions: &["the clock, unique ids drawn at random, and the numbers, names and order of the builder's relations are left out"],
        level: "exploration",
    },
];
