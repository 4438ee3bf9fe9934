include prelude/std_more.rs
map method dedup vdedup
map method sort_by_key vsort_by_key
map method sort_by vsort_by
