// Shared by the programs in bin/ (included there): each explores a group of properties, so that a
// check compiles only what it needs.
#[allow(unused)]
mod a;
#[allow(unused)]
mod alloc;
#[allow(unused)]
mod big;
#[allow(unused)]
mod corpus;
#[allow(unused)]
mod d;
#[allow(unused)]
mod dyn_serde;
#[allow(unused)]
mod e;
#[allow(unused)]
mod engine;
#[allow(unused)]
mod f;
#[allow(unused)]
mod inputs;
#[allow(unused)]
mod j;
#[allow(unused)]
mod j2;
#[allow(unused)]
mod j3;
#[allow(unused)]
mod m;
#[allow(unused)]
mod r;
#[allow(unused)]
mod s;
#[allow(unused)]
mod tys;
#[allow(unused)]
mod vals;

#[allow(unused)]
mod x;

#[allow(unused)]
mod e9;

#[allow(unused)]
mod w;

use engine::Spec;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

#[allow(unused)]
const CODEC: &str = "our reference SCALE codec (tys.rs: encode, three-valued decode of every prefix, value domain per type), written from the SCALE specification; only leaf integers are delegated to parity-scale-codec";
#[allow(unused)]
const READ256: &str = "numbers of 256 bits are decodable only at the end of the input (scale-decode reads them so); inputs with data after one are left out";
#[allow(unused)]
const DEPTH: &str = "nesting is bounded by the exploration; unbounded nesting is limited by the call stack and not covered";
#[allow(unused)]
const D_BOUNDS: &str = "all types built from every primitive, compact, bit store/order by every constructor (struct, tuple, sequence, array, enum, wrappers) to depth 2 (3 for some leaves), recursive, duplicate and wide types; per type all byte strings over a 20 byte alphabet grown while the reference decoder wants more (capped), plus encodings of the value domain with every truncation, byte substitution, trailing data and hostile length at every offset";
#[allow(unused)]
const V_BOUNDS: &str = "all scalars of a boundary set (numbers, characters, short strings over quoting characters, bit strings), in every container position, all containers up to width 3 and trees up to depth 3 over names of every spelling";
#[allow(unused)]
const T_BOUNDS: &str = "all strings over the characters and tokens of the syntax up to a length, all single and double edits of a set of valid texts, all number, string and character literal spellings up to a length";
#[allow(unused)]
const E_BOUNDS: &str = "the type family of D01 crossed with the value domain of each type, its variations, and values of other types";
#[allow(unused)]
const J_BOUNDS: &str = "all Rust data types built from every serde shape to depth 2 (and part of depth 3) by an interpreter making the calls derived code makes, with boundary values, plus really derived types";
#[allow(unused)]
const READINGS: &str = "the set of all readings of a value as a type (the value as it stands, with one single-item layer taken off, or the type with one single-field layer taken off, at every level), each with its SCALE encoding";
