//! Stand-in for `codespan-reporting`: same types, plain one-line rendering.
pub mod diagnostic {
    use std::ops::Range;
    #[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
    pub enum Severity {
        Help,
        Note,
        Warning,
        Error,
        Bug,
    }
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum LabelStyle {
        Primary,
        Secondary,
    }
    #[derive(Debug, Clone)]
    pub struct Label<F> {
        pub style: LabelStyle,
        pub file_id: F,
        pub range: Range<usize>,
        pub message: String,
    }
    impl<F> Label<F> {
        pub fn new(style: LabelStyle, file_id: F, range: impl Into<Range<usize>>) -> Self {
            Label { style, file_id, range: range.into(), message: String::new() }
        }
        pub fn with_message(mut self, m: impl ToString) -> Self {
            self.message = m.to_string();
            self
        }
    }
    #[derive(Debug, Clone)]
    pub struct Diagnostic<F> {
        pub severity: Severity,
        pub code: Option<String>,
        pub message: String,
        pub labels: Vec<Label<F>>,
        pub notes: Vec<String>,
    }
    impl<F> Diagnostic<F> {
        pub fn new(severity: Severity) -> Self {
            Diagnostic { severity, code: None, message: String::new(), labels: vec![], notes: vec![] }
        }
        pub fn with_code(mut self, c: impl ToString) -> Self {
            self.code = Some(c.to_string());
            self
        }
        pub fn with_message(mut self, m: impl ToString) -> Self {
            self.message = m.to_string();
            self
        }
        pub fn with_label(mut self, l: Label<F>) -> Self {
            self.labels.push(l);
            self
        }
        pub fn with_labels(mut self, mut l: Vec<Label<F>>) -> Self {
            self.labels.append(&mut l);
            self
        }
        pub fn with_note(mut self, n: impl ToString) -> Self {
            self.notes.push(n.to_string());
            self
        }
        pub fn with_notes(mut self, mut n: Vec<String>) -> Self {
            self.notes.append(&mut n);
            self
        }
    }
}
pub mod files {
    #[derive(Debug)]
    pub enum Error {
        FileMissing,
    }
    impl std::fmt::Display for Error {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("file missing")
        }
    }
    impl std::error::Error for Error {}
    #[derive(Debug, Default, Clone)]
    pub struct SimpleFiles<N, S> {
        pub(crate) files: Vec<(N, S)>,
    }
    impl<N: std::fmt::Display, S: AsRef<str>> SimpleFiles<N, S> {
        pub fn new() -> Self {
            SimpleFiles { files: vec![] }
        }
        pub fn add(&mut self, name: N, source: S) -> usize {
            self.files.push((name, source));
            self.files.len() - 1
        }
    }
}
pub mod term {
    use crate::{diagnostic::Diagnostic, files::{Error, SimpleFiles}};
    pub mod termcolor {
        #[derive(Debug, Clone, Copy)]
        pub enum ColorChoice {
            Always,
            AlwaysAnsi,
            Auto,
            Never,
        }
        pub struct StandardStream;
        impl StandardStream {
            pub fn stderr(_: ColorChoice) -> Self {
                StandardStream
            }
            pub fn stdout(_: ColorChoice) -> Self {
                StandardStream
            }
        }
        impl std::io::Write for StandardStream {
            fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
                std::io::stderr().write(b)
            }
            fn flush(&mut self) -> std::io::Result<()> {
                std::io::stderr().flush()
            }
        }
    }
    #[derive(Default, Debug, Clone)]
    pub struct Config;
    #[derive(Default, Debug, Clone)]
    pub struct Styles;
    pub struct StylesWriter<'a, W> {
        w: W,
        _s: &'a Styles,
    }
    impl<'a, W> StylesWriter<'a, W> {
        pub fn new(w: W, s: &'a Styles) -> Self {
            StylesWriter { w, _s: s }
        }
    }
    pub fn emit_to_write_style<N: std::fmt::Display, S: AsRef<str>, W: std::io::Write>(
        w: &mut StylesWriter<'_, W>,
        _config: &Config,
        files: &SimpleFiles<N, S>,
        d: &Diagnostic<usize>,
    ) -> Result<(), Error> {
        let _ = writeln!(w.w, "{:?}[{}]: {}", d.severity, d.code.as_deref().unwrap_or(""), d.message);
        for l in &d.labels {
            let (name, src) = files.files.get(l.file_id).ok_or(Error::FileMissing)?;
            let line = src.as_ref().get(..l.range.start).map_or(0, |s| s.matches('\n').count()) + 1;
            let _ = writeln!(w.w, "  --> {name}:{line} {:?} {}", l.range, l.message);
        }
        Ok(())
    }
}
