//! The listed findings (known-findings.txt), one at a time, for the interpreter to confirm: safe code with undefined behaviour.
use xecs::query::QueryIterator;
use xecs::World;

fn world() -> (World, xecs::EntityId) {
    let mut w = World::new();
    w.register::<Box<u64>>();
    let id = w.create_entity().attach(Box::new(7u64)).into_id();
    w.create_entity().attach(Box::new(8u64));
    (w, id)
}
/// A row of a shared query is used after its iterator is gone and the entity was removed.
fn outlive() -> u64 {
    let (w, id) = world();
    let mut it = w.query::<&Box<u64>>();
    let row = it.next().expect("a row");
    drop(it);
    w.remove_entity(id);
    **row
}
/// Two rows of one mutable iterator are the same component.
fn twice() -> u64 {
    let (w, id) = world();
    let mut it = w.query::<&mut Box<u64>>();
    let a = it.next().expect("a row");
    let b = it.from_id(id).expect("a row");
    **a += 1;
    **b += 1;
    **a
}
/// Rows of two mutable queries, made one after the other, are the same component.
fn again() -> u64 {
    let (w, _) = world();
    let a = w.query::<&mut Box<u64>>().next().expect("a row");
    let b = w.query::<&mut Box<u64>>().next().expect("a row");
    **a += 1;
    **b += 1;
    **a
}
/// A row whose iterator is gone is read while another thread writes through a guard.
fn threads() -> u64 {
    let (w, id) = world();
    let row = w.query::<&Box<u64>>().next().expect("a row");
    std::thread::scope(|s| {
        s.spawn(|| **w.entity_component_write::<Box<u64>>(id).expect("there") += 1);
        s.spawn(move || **row);
    });
    0
}
pub fn probe(name: &str) -> i32 {
    let x = match name {
        "outlive" => outlive(),
        "twice" => twice(),
        "again" => again(),
        "threads" => threads(),
        _ => return 2,
    };
    println!("{x}");
    0
}
