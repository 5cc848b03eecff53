pub mod cli;
pub mod report;
pub mod db;
pub mod fmt;
pub mod runner;
pub mod tree;
pub mod windows;
