include!("../../main.rs");
