//! Stand-in for expect-test (only used to run the repository's own tests against the shims).
pub struct Expect {
    pub data: &'static str,
    pub indent: bool,
}

impl Expect {
    pub fn data(&self) -> &str {
        self.data
    }

    pub fn indent(&mut self, yes: bool) {
        self.indent = yes;
    }

    fn trimmed(&self) -> String {
        if !self.data.contains('\n') {
            return self.data.to_string();
        }
        trim_indent(self.data)
    }

    #[track_caller]
    pub fn assert_eq(&self, actual: &str) {
        let expected = if self.indent { self.trimmed() } else { self.data.to_string() };
        if expected != actual {
            panic!("expect test failed\n--- expected\n{expected}\n--- actual\n{actual}\n---");
        }
    }

    #[track_caller]
    pub fn assert_debug_eq(&self, actual: &impl std::fmt::Debug) {
        self.assert_eq(&format!("{actual:#?}\n"))
    }
}

fn trim_indent(mut text: &str) -> String {
    if text.starts_with('\n') {
        text = &text[1..];
    }
    let indent = text
        .lines()
        .filter(|it| !it.trim().is_empty())
        .map(|it| it.len() - it.trim_start().len())
        .min()
        .unwrap_or(0);
    text.split_inclusive('\n')
        .map(|line| if line.len() <= indent { line.trim_start_matches(' ') } else { &line[indent..] })
        .collect()
}

#[macro_export]
macro_rules! expect {
    [[$data:literal]] => { $crate::Expect { data: $data, indent: true } };
    [$data:literal] => { $crate::expect![[$data]] };
    [[]] => { $crate::expect![[""]] };
    [] => { $crate::expect![[""]] };
}

#[macro_export]
macro_rules! expect_file {
    [$path:expr] => { compile_error!("not supported") };
}
