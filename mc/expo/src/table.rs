//! Parquet output as plain data.
#![allow(dead_code)]
use crate::model::*;
use arrow::array::*;
use arrow::datatypes::DataType;
use parquet::arrow::arrow_reader::ParquetRecordBatchReaderBuilder;
use std::io::Write;
use std::sync::{Arc, Mutex};

#[derive(Clone, Default)]
pub struct Sink(pub Arc<Mutex<Vec<u8>>>);
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { self.0.lock().unwrap().extend_from_slice(b); Ok(b.len()) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
impl Sink { pub fn take(&self) -> Vec<u8> { std::mem::take(&mut self.0.lock().unwrap()) } }

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Cell { U(u64), I(i64), L(Vec<u64>) }
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Col { pub name: String, pub ty: &'static str, pub meta: Map, pub cells: Vec<Option<Cell>> }
#[derive(Clone, Debug, PartialEq)]
pub struct Table { pub cols: Vec<Col>, pub rows: usize, pub groups: Vec<i64>, pub kv: Vec<(String, Option<String>)>, pub codecs: Vec<String> }

pub fn read(bytes: Vec<u8>) -> Result<Table, String> {
    let b = ParquetRecordBatchReaderBuilder::try_new(bytes::Bytes::from(bytes)).map_err(|e| format!("output is not readable: {e}"))?;
    let md = b.metadata().clone();
    let groups: Vec<i64> = md.row_groups().iter().map(|g| g.num_rows()).collect();
    let mut codecs: Vec<String> = md.row_groups().iter().flat_map(|g| g.columns().iter().map(|c| format!("{}", c.compression()))).collect();
    codecs.sort(); codecs.dedup();
    let mut kv: Vec<(String, Option<String>)> = md.file_metadata().key_value_metadata().map(|v| v.iter().map(|k| (k.key.clone(), k.value.clone())).collect()).unwrap_or_default();
    // stored by the Parquet library itself
    kv.retain(|x| x.0 != "ARROW:schema");
    kv.sort();
    let schema = b.schema().clone();
    let mut cols: Vec<Col> = schema.fields().iter().map(|f| Col {
        name: f.name().clone(),
        ty: match f.data_type() { DataType::UInt64 => "u64", DataType::Int64 => "i64", DataType::List(x) if *x.data_type() == DataType::UInt64 => "list", _ => "other" },
        meta: bmap(f.metadata()), cells: vec![],
    }).collect();
    let mut rows = 0;
    for batch in b.build().map_err(|e| format!("output is not readable: {e}"))? {
        let batch = batch.map_err(|e| format!("output is not readable: {e}"))?;
        rows += batch.num_rows();
        for (i, c) in batch.columns().iter().enumerate() { for k in 0..batch.num_rows() {
            let cell = if c.is_null(k) { None } else { Some(match cols[i].ty {
                "u64" => Cell::U(c.as_any().downcast_ref::<UInt64Array>().unwrap().value(k)),
                "i64" => Cell::I(c.as_any().downcast_ref::<Int64Array>().unwrap().value(k)),
                "list" => { let l = c.as_any().downcast_ref::<ListArray>().unwrap().value(k); let v = l.as_any().downcast_ref::<UInt64Array>().unwrap(); if v.null_count() > 0 { return Err("null inside a bucket list".into()) } Cell::L(v.values().to_vec()) }
                _ => return Err(format!("column {} has an unexpected type", cols[i].name)),
            }) };
            cols[i].cells.push(cell);
        } }
    }
    if groups.iter().sum::<i64>() != rows as i64 || md.file_metadata().num_rows() != rows as i64 { return Err(format!("row counts disagree: groups {groups:?}, file {}, data {rows}", md.file_metadata().num_rows())) }
    Ok(Table { cols, rows, groups, kv, codecs })
}
/// The table that converting `s` must produce (columns sorted), without file metadata.
/// `name` gives the column name of a reading.
pub fn expected(s: &[Snap], sparse: bool) -> Vec<Col> {
    use std::collections::BTreeMap;
    let n = s.len();
    let mut cols: BTreeMap<(String, &'static str, u8), Col> = BTreeMap::new();
    let blank = |name: String, ty, meta: Map| Col { name, ty, meta, cells: vec![None; n] };
    let unit = |t: &str| map(&[("metric_type", t), ("unit", "nanoseconds")]);
    let mut ts = blank("timestamp".into(), "u64", unit("timestamp"));
    let mut du = blank("duration".into(), "u64", unit("duration"));
    let typed = |m: &Map, t: &str| { let mut m = m.clone(); m.insert("metric_type".into(), t.into()); m };
    for (i, x) in s.iter().enumerate() {
        ts.cells[i] = Some(Cell::U(x.ts.as_nanos() as u64));
        du.cells[i] = x.dur.map(|d| Cell::U(d.as_nanos() as u64));
        for c in &x.c { let k = column_name(&c.name, &c.meta); cols.entry((k.clone(), "u64", 0)).or_insert_with(|| blank(k, "u64", typed(&c.meta, "counter"))).cells[i] = Some(Cell::U(c.value)) }
        for c in &x.g { let k = column_name(&c.name, &c.meta); cols.entry((k.clone(), "i64", 1)).or_insert_with(|| blank(k, "i64", typed(&c.meta, "gauge"))).cells[i] = Some(Cell::I(c.value)) }
        for c in &x.h {
            let k = column_name(&c.name, &c.meta);
            if !sparse {
                let k = format!("{k}:buckets");
                cols.entry((k.clone(), "list", 2)).or_insert_with(|| blank(k, "list", typed(&c.meta, "histogram"))).cells[i] = Some(Cell::L(c.value.b.clone()))
            } else {
                let nz: Vec<(u64, u64)> = c.value.b.iter().enumerate().filter(|x| *x.1 != 0).map(|(i, v)| (i as u64, *v)).collect();
                for (sfx, v) in [(":bucket_indices", nz.iter().map(|x| x.0).collect::<Vec<_>>()), (":bucket_counts", nz.iter().map(|x| x.1).collect())] {
                    let k = format!("{k}{sfx}");
                    cols.entry((k.clone(), "list", 2)).or_insert_with(|| blank(k, "list", typed(&c.meta, "sparse_histogram"))).cells[i] = Some(Cell::L(v))
                }
            }
        }
    }
    let mut v: Vec<Col> = vec![ts, du];
    v.extend(cols.into_values());
    v.sort();
    v
}
/// The documented column name of a metric.
pub fn column_name(name: &str, m: &Map) -> String {
    let Some(base) = m.get("metric") else { return name.to_string() };
    let mut parts = vec![base.clone()];
    for k in ["name", "op", "state", "direction"] { parts.extend(m.get(k).cloned()) }
    for (k, v) in m { if !["metric", "unit", "grouping_power", "max_value_power", "id", "name", "op", "state", "direction"].contains(&k.as_str()) { parts.push(v.clone()) } }
    parts.extend(m.get("id").cloned());
    parts.join("/")
}
/// Data of the table without metadata, columns sorted.
pub fn data(cols: &[Col]) -> Vec<(String, &'static str, Vec<Option<Cell>>)> { let mut v: Vec<_> = cols.iter().map(|c| (c.name.clone(), c.ty, c.cells.clone())).collect(); v.sort(); v }
pub fn diff<T: PartialEq + std::fmt::Debug>(what: &str, got: &[T], want: &[T]) -> Result<(), String> {
    if got == want { return Ok(()) }
    for x in got { if !want.contains(x) { return Err(format!("{what}: unexpected {x:?}; expected one of {:?}", want.iter().filter(|w| !got.contains(w)).collect::<Vec<_>>())) } }
    for x in want { if !got.contains(x) { return Err(format!("{what}: missing {x:?}")) } }
    Err(format!("{what}: {got:?}, expected {want:?}"))
}
