pub(crate) mod file_descriptor;
