pub(crate) mod unix;
