use crate::{harnesses, sx};
use parquet2::metadata::{ColumnDescriptor, SchemaDescriptor};
use parquet2::schema::types::*;
use parquet2::schema::Repetition;

#[inline(always)]
fn name() -> String {
    // any ASCII character, so that names may repeat or hold a separator
    let c = sx::u8() & 0x7f;
    unsafe { String::from_utf8_unchecked(vec![c]) }
}
fn repetition() -> Repetition {
    match sx::choose(3) {
        0 => Repetition::Required,
        1 => Repetition::Optional,
        _ => Repetition::Repeated,
    }
}
fn tree(budget: &mut usize, depth: usize) -> ParquetType {
    *budget -= 1;
    let rep = repetition();
    if depth == 0 || sx::flag() {
        let p = [PhysicalType::Int32, PhysicalType::ByteArray][*budget % 2];
        return ParquetType::try_from_primitive(name(), p, rep, None, None, Some(*budget as i32)).unwrap_or_else(|_| panic!());
    }
    let mut fields = vec![];
    let n = name();
    let id = *budget as i32;
    while *budget > 0 && sx::flag() {
        fields.push(tree(budget, depth - 1));
    }
    ParquetType::from_group(n, rep, None, None, fields, Some(id))
}
struct Leaf<'a> {
    path: Vec<&'a str>,
    def: i16,
    rep: i16,
    t: &'a PrimitiveType,
    base: &'a ParquetType,
}
/// depth-first reference
fn leaves<'a>(t: &'a ParquetType, base: &'a ParquetType, path: &[&'a str], def: i16, rep: i16, out: &mut Vec<Leaf<'a>>) {
    let i = t.get_field_info();
    let mut path = path.to_vec();
    path.push(&i.name);
    let (def, rep) = match i.repetition {
        Repetition::Required => (def, rep),
        Repetition::Optional => (def + 1, rep),
        Repetition::Repeated => (def + 1, rep + 1),
    };
    match t {
        ParquetType::PrimitiveType(t) => out.push(Leaf { path, def, rep, t, base }),
        ParquetType::GroupType { fields, .. } => {
            for f in fields {
                leaves(f, base, &path, def, rep, out);
            }
        }
    }
}
fn verify(s: &SchemaDescriptor, fields: &[ParquetType]) {
    sx::check(s.fields() == fields, "the fields are those given");
    let mut want = vec![];
    for f in fields {
        leaves(f, f, &[], 0, 0, &mut want);
    }
    let got: &[ColumnDescriptor] = s.columns();
    sx::check(got.len() == want.len(), "as many columns as leaves");
    for i in 0..want.len() {
        let (g, w) = (&got[i], &want[i]);
        sx::check(g.descriptor.max_def_level == w.def, "maximum definition level");
        sx::check(g.descriptor.max_rep_level == w.rep, "maximum repetition level");
        sx::check(&g.descriptor.primitive_type == w.t, "type of the leaf");
        sx::check(&g.base_type == w.base, "field of the leaf");
        sx::check(g.path_in_schema.len() == w.path.len(), "length of the path");
        for k in 0..w.path.len() {
            sx::check(g.path_in_schema[k] == w.path[k], "path of the leaf");
        }
        sx::reach("leaf");
        if w.path.len() > 2 {
            sx::reach("deep leaf");
        }
    }
}

harnesses! {
    // P: nodes, depth
    fn h_tree() {
        let mut budget = sx::param(0);
        let mut fields = vec![];
        while budget > 0 && sx::flag() {
            fields.push(tree(&mut budget, sx::param(1)));
        }
        let s = SchemaDescriptor::new(name(), fields.clone());
        verify(&s, &fields);
    }
    // one chain of groups, with a leaf before and after each
    // P: depth
    fn h_chain() {
        let d = sx::param(0);
        let leaf = |r| ParquetType::try_from_primitive(name(), PhysicalType::Int64, r, None, None, None).unwrap_or_else(|_| panic!());
        let mut t = leaf(repetition());
        for _ in 0..d {
            let fields = vec![leaf(Repetition::Required), t, leaf(Repetition::Repeated)];
            t = ParquetType::from_group(name(), repetition(), None, None, fields, None);
        }
        let fields = vec![t];
        let s = SchemaDescriptor::new("r".to_string(), fields.clone());
        verify(&s, &fields);
        sx::reach("chain");
    }
}
