//! mkparquet OUT GROUPS < table : writes the table (lines: name scale v v v ...; "-" is null; scale "s" for a text column) as Parquet.
use arrow::array::{ArrayRef, Decimal128Array, StringArray};
use arrow::record_batch::RecordBatch;
use parquet::arrow::ArrowWriter;
use parquet::file::properties::WriterProperties;
use std::io::Read;
use std::sync::Arc;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).unwrap();
    let cols: Vec<(String, ArrayRef)> = s
        .lines()
        .map(|l| {
            let mut w = l.split_whitespace();
            let name = w.next().unwrap().to_string();
            let scale = w.next().unwrap();
            let arr: ArrayRef = if scale == "s" {
                Arc::new(StringArray::from(w.map(|x| x.to_string()).collect::<Vec<_>>()))
            } else {
                let v: Vec<Option<i128>> = w.map(|x| x.parse().ok()).collect();
                Arc::new(Decimal128Array::from(v).with_precision_and_scale(30, scale.parse().unwrap()).unwrap())
            };
            (name, arr)
        })
        .collect();
    let batch = RecordBatch::try_from_iter_with_nullable(cols.into_iter().map(|(n, a)| (n, a, true))).unwrap();
    let props = WriterProperties::builder().set_max_row_group_size(a[2].parse().unwrap()).build();
    let mut w = ArrowWriter::try_new(std::fs::File::create(&a[1]).unwrap(), batch.schema(), Some(props)).unwrap();
    w.write(&batch).unwrap();
    w.close().unwrap();
}
