pub mod gen;
pub mod oracle;
pub mod prog;
pub mod props;
pub mod rng;
pub mod run;
pub mod shrink;
pub mod spillall;
pub mod valid;
