//! Bounded-exhaustive model checking of nadavrot/layout.
pub mod api;
pub mod cli;
pub mod engine;
pub mod meaning;
pub mod rec;
pub mod refdot;
pub mod capture;
pub mod css;
pub mod refattr;
pub mod scale;
pub mod scene;
pub mod dags;
pub mod gen;
pub mod xml;
pub mod svgread;
