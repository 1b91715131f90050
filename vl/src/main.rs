include!("../../vh/src/main.rs");
