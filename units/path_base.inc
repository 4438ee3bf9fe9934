map type anyhow::Error AnyhowError
map type Path PathBuf
map type std::path::Path PathBuf
map type std::path::PathBuf PathBuf
map type std::path::Component Component
map path Path::new path_new
map path path::absolute path_absolute
map path std::path::absolute path_absolute
map method starts_with vstarts_with
include prelude/paths.rs
type daemon/src/path.rs RelativePath AbsolutePath FileUri
include prelude/path_spec.rs
broadcast pathlem::group_path
