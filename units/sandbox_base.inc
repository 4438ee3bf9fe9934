map path fs::read fs_read
map path fs::write fs_write
map path fs::rename fs_rename
map path fs::remove_file fs_remove_file
map path fs::create_dir fs_create_dir
map path fs::create_dir_all fs_create_dir_all
map path std::fs::read fs_read
map path std::fs::write fs_write
map path std::fs::rename fs_rename
map path std::fs::remove_file fs_remove_file
map path std::fs::create_dir fs_create_dir
map path std::fs::create_dir_all fs_create_dir_all
map type anyhow::Result Result
include prelude/fs.rs
broadcast fslem::group_fs
map method contains vcontains
map method ends_with vends_with
thread read_file write_file append_file rename_file remove_file create_dir create_dir_all exists ignored
