//! Stand-in for `tracing-tree`: one plain line per event.
use std::io::Write;
use tracing_subscriber::{fmt::MakeWriter, layer::Context};
pub struct HierarchicalLayer<W = fn() -> std::io::Stderr> {
    writer: W,
}
impl HierarchicalLayer {
    pub fn new(_indent: usize) -> Self {
        HierarchicalLayer { writer: std::io::stderr }
    }
}
impl<W> HierarchicalLayer<W> {
    pub fn with_ansi(self, _: bool) -> Self {
        self
    }
    pub fn with_indent_lines(self, _: bool) -> Self {
        self
    }
    pub fn with_deferred_spans(self, _: bool) -> Self {
        self
    }
    pub fn with_writer<W2>(self, writer: W2) -> HierarchicalLayer<W2> {
        HierarchicalLayer { writer }
    }
}
struct V(String);
impl tracing::field::Visit for V {
    fn record_debug(&mut self, field: &tracing::field::Field, value: &dyn std::fmt::Debug) {
        self.0.push_str(&format!(" {}={:?}", field.name(), value));
    }
}
impl<S, W> tracing_subscriber::Layer<S> for HierarchicalLayer<W>
where
    S: tracing::Subscriber,
    W: for<'a> MakeWriter<'a> + 'static,
{
    fn on_event(&self, event: &tracing::Event<'_>, _: Context<'_, S>) {
        let mut v = V(String::new());
        event.record(&mut v);
        let _ = writeln!(self.writer.make_writer(), "{} {}{}", event.metadata().level(), event.metadata().target(), v.0);
    }
}
