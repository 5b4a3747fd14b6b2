//! The hierarchical layout is cosmetic; spans and events are dropped.
use tracing_subscriber::{fmt::MakeWriter, Layer};
pub struct HierarchicalLayer<W = fn() -> std::io::Stderr> { _w: std::marker::PhantomData<fn() -> W> }
impl HierarchicalLayer { pub fn new(_indent: usize) -> Self { HierarchicalLayer { _w: std::marker::PhantomData } } }
macro_rules! opt { ($($n:ident($($t:ty),*)),* $(,)?) => { $(pub fn $n(self $(, _: $t)*) -> Self { self })* } }
impl<W> HierarchicalLayer<W> {
    pub fn with_writer<W2>(self, _w: W2) -> HierarchicalLayer<W2> where W2: for<'a> MakeWriter<'a> + 'static { HierarchicalLayer { _w: std::marker::PhantomData } }
    opt!(with_indent_lines(bool), with_ansi(bool), with_targets(bool), with_verbose_exit(bool), with_verbose_entry(bool), with_bracketed_fields(bool),
        with_span_modes(bool), with_thread_ids(bool), with_thread_names(bool), with_wraparound(usize), with_indent_amount(usize), with_deferred_spans(bool), with_span_retrace(bool), with_higher_precision(bool));
    pub fn with_timer<T>(self, _t: T) -> Self { self }
}
impl<S: tracing::Subscriber, W: 'static> Layer<S> for HierarchicalLayer<W> {}
