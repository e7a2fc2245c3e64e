//! Harnesses: each `h_*` function states a property over symbolic inputs.
mod es;
mod metrics;
mod store;
mod eval;
mod parse;
mod trec;
mod maps;
mod ttest;
mod anova;
mod randomized;
mod json;
mod huge;
