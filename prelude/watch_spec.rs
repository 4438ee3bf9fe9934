// The watcher: events of the `notify` crate come in, events of the daemon go out.
pub mod notify {
    pub mod event {
        use vstd::prelude::*;
        #[derive(Clone, Copy)]
        pub enum CreateKind { Any, File, Folder, Other }
        #[derive(Clone, Copy)]
        pub enum RemoveKind { Any, File, Folder, Other }
        #[derive(Clone, Copy)]
        pub enum DataChange { Any, Size, Content, Other }
        #[derive(Clone, Copy)]
        pub enum RenameMode { Any, To, From, Both, Other }
        #[derive(Clone, Copy)]
        pub enum ModifyKind { Any, Data(DataChange), Metadata(u8), Name(RenameMode), Other }
        #[derive(Clone, Copy)]
        pub enum EventKind { Any, Access(u8), Create(CreateKind), Modify(ModifyKind), Remove(RemoveKind), Other }
    }
    pub use event::EventKind;
    pub struct Event { pub kind: EventKind, pub paths: Vec<super::PathBuf> }
}
pub use notify::event::{EventKind, CreateKind, RemoveKind, ModifyKind, RenameMode, DataChange};

/// What notify notices: it hands every event below the watched directories to a function, in order.
#[verifier::external_body]
pub struct RecommendedWatcher { x: u8 }
pub enum RecursiveMode { Recursive, NonRecursive }
impl RecommendedWatcher {
    pub uninterp spec fn watched(self) -> Set<(Seq<char>, bool)>;
    /// Everything it notices arrives at the other end of the channel.
    pub uninterp spec fn feeds(self, channel: int) -> bool;
    #[verifier::external_body]
    pub fn watch(&mut self, dir: &PathBuf, mode: RecursiveMode) -> (r: Result<(), NotifyError>)
        ensures
            forall|c: int| #[trigger] final(self).feeds(c) == old(self).feeds(c),
            r is Ok ==> final(self).watched() == old(self).watched().insert((dir@, mode is Recursive)),
    { unimplemented!() }
}
#[verifier::external_body]
pub fn recommended_watcher<F: Fn(NotifyResult<notify::Event>)>(f: F) -> (r: Result<RecommendedWatcher, NotifyError>)
    requires forall|e: NotifyResult<notify::Event>| #[trigger] f.requires((e,)),
    ensures
        r is Ok ==> r->Ok_0.watched() == Set::<(Seq<char>, bool)>::empty(),
        r is Ok ==> forall|c: int| (forall|e: NotifyResult<notify::Event>| f.ensures((e,), ()) ==> #[trigger] was_sent(c, e)) ==> #[trigger] r->Ok_0.feeds(c),
{ unimplemented!() }
/// Whether this was put into the channel, as the only thing.
pub uninterp spec fn was_sent(channel: int, e: NotifyResult<notify::Event>) -> bool;
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct EventSender<T> { x: Vec<T> }
impl EventSender<NotifyResult<notify::Event>> {
    pub uninterp spec fn channel(self) -> int;
    #[verifier::external_body]
    pub fn send(&self, e: NotifyResult<notify::Event>) -> (r: Result<(), NotifyError>)
        ensures r is Ok ==> was_sent(self.channel(), e),
    { unimplemented!() }
}
#[verifier::external_body]
pub fn event_channel(n: usize) -> (r: (EventSender<NotifyResult<notify::Event>>, EventReceiver<NotifyResult<notify::Event>>))
    ensures r.0.channel() == r.1.channel(),
{ unimplemented!() }
#[verifier::external_body]
pub struct NotifyError { x: u8 }
pub type NotifyResult<T> = Result<T, NotifyError>;

/// The events still to come, each with the world at the time it is taken.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct EventReceiver<T> { x: Vec<T> }
impl EventReceiver<NotifyResult<notify::Event>> {
    pub uninterp spec fn channel(self) -> int;
    pub uninterp spec fn coming(self) -> Seq<(VWorld, notify::Event)>;
    /// Waits until there is one (assumption: notify reports no errors and does not stop).
    #[verifier::external_body]
    pub fn recv(&mut self, w: &mut VWorld) -> (r: Option<NotifyResult<notify::Event>>)
        ensures
            old(self).coming().len() > 0,
            final(self).coming() == old(self).coming().skip(1),
            r is Some && r->0 is Ok && r->0->Ok_0 == old(self).coming()[0].1,
            *final(w) == old(self).coming()[0].0,
    { unimplemented!() }
}

pub enum Seen { Created(Seq<char>), Removed(Seq<char>), Changed(Seq<char>) }

pub open spec fn seen(e: WatcherEvent) -> Seen {
    match e {
        WatcherEvent::Created { file_path } => Seen::Created(file_path@),
        WatcherEvent::Removed { file_path } => Seen::Removed(file_path@),
        WatcherEvent::Changed { file_path } => Seen::Changed(file_path@),
    }
}

/// Ignored, or the check fails.
pub open spec fn out_of_sight(base: Seq<char>, w: VWorld, p: Seq<char>) -> bool {
    !can_act(base, p) || !shared_file(base, w, denotes(p)->0)
}

pub open spec fn unless(b: bool, e: Seen) -> Seq<Seen> { if b { Seq::empty() } else { seq![e] } }

/// What has to be reported for one event.
pub open spec fn report(base: Seq<char>, w: VWorld, e: notify::Event) -> Seq<Seen> {
    match e.kind {
        EventKind::Create(CreateKind::File) => unless(out_of_sight(base, w, e.paths@[0]@), Seen::Created(e.paths@[0]@)),
        EventKind::Remove(RemoveKind::File) => seq![Seen::Removed(e.paths@[0]@)],
        EventKind::Modify(ModifyKind::Data(_)) => unless(out_of_sight(base, w, e.paths@[0]@), Seen::Changed(e.paths@[0]@)),
        EventKind::Modify(ModifyKind::Name(RenameMode::Both)) =>
            seq![Seen::Removed(e.paths@[0]@)] + unless(out_of_sight(base, w, e.paths@[1]@), Seen::Created(e.paths@[1]@)),
        EventKind::Modify(ModifyKind::Name(RenameMode::Any)) =>
            if w.there(denotes(e.paths@[0]@)->0) {
                unless(out_of_sight(base, w, e.paths@[0]@), Seen::Created(e.paths@[0]@))
            } else {
                seq![Seen::Removed(e.paths@[0]@)]
            },
        _ => Seq::empty(),
    }
}

/// Events as notify makes them: for the paths they concern, which are below the watched directory.
pub open spec fn proper(base: Seq<char>, e: notify::Event) -> bool {
    match e.kind {
        EventKind::Create(CreateKind::File) | EventKind::Remove(RemoveKind::File) | EventKind::Modify(ModifyKind::Data(_)) => e.paths@.len() == 1,
        EventKind::Modify(ModifyKind::Name(RenameMode::Both)) => e.paths@.len() == 2,
        EventKind::Modify(ModifyKind::Name(RenameMode::Any)) => e.paths@.len() == 1 && can_act(base, e.paths@[0]@),
        _ => true,
    }
}

pub open spec fn reported(base: Seq<char>, c: Seq<(VWorld, notify::Event)>) -> Seq<Seen>
    decreases c.len(),
{
    if c.len() == 0 { Seq::empty() } else { report(base, c[0].0, c[0].1) + reported(base, c.skip(1)) }
}

pub open spec fn seen_all(q: Seq<WatcherEvent>) -> Seq<Seen> { q.map_values(|e: WatcherEvent| seen(e)) }

impl Watcher {
    /// Everything this watcher will ever report, in order.
    pub open spec fn story(self) -> Seq<Seen> {
        seen_all(self.out_queue@) + reported(self.base_dir@, self.notify_receiver.coming())
    }
    pub open spec fn sound(self) -> bool {
        &&& is_base(self.base_dir@)
        &&& forall|i: int| 0 <= i < self.notify_receiver.coming().len() ==> proper(self.base_dir@, (#[trigger] self.notify_receiver.coming()[i]).1)
    }
}

pub mod watchlem {
    use super::*;
    /// Taking the oldest queued event.
    pub proof fn lemma_pop(q: Seq<WatcherEvent>, rest: Seq<Seen>)
        requires q.len() > 0,
        ensures seen_all(q) + rest == seq![seen(q[0])] + (seen_all(q.skip(1)) + rest),
    {
        assert(seen_all(q) + rest =~= seq![seen(q[0])] + (seen_all(q.skip(1)) + rest));
    }
    pub broadcast proof fn lemma_one(q: Seq<WatcherEvent>, e: WatcherEvent)
        requires q.len() == 0,
        ensures #[trigger] seen_all(q.push(e)) == seq![seen(e)],
    {
        assert(seen_all(q.push(e)) =~= seq![seen(e)]);
    }
    pub broadcast proof fn lemma_assoc(a: Seq<Seen>, b: Seq<Seen>, c: Seq<Seen>)
        ensures #[trigger] ((a + b) + c) == a + (b + c),
    {
        assert(((a + b) + c) =~= a + (b + c));
    }
    pub broadcast proof fn lemma_before(a: Seq<Seen>)
        ensures #[trigger] (Seq::<Seen>::empty() + a) == a,
    {
        assert(Seq::<Seen>::empty() + a =~= a);
    }
    pub broadcast proof fn lemma_after(a: Seq<Seen>)
        ensures #[trigger] (a + Seq::<Seen>::empty()) == a,
    {
        assert(a + Seq::<Seen>::empty() =~= a);
    }
    pub broadcast proof fn lemma_no_queue(q: Seq<WatcherEvent>)
        requires q.len() == 0,
        ensures #[trigger] seen_all(q) == Seq::<Seen>::empty(),
    {
        assert(seen_all(q) =~= Seq::<Seen>::empty());
    }
    pub broadcast group group_watch { lemma_one, lemma_assoc, lemma_before, lemma_after, lemma_no_queue }
}
