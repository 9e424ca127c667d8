ID, PROP = "B18", "P11"
NEEDS = "two events of one address emitted in another order than that of their kind and value"
BREAKS = "events of one address keep the order in which they were emitted: the committed hash and the hints depend on time"
EDITS = [("sdk/src/native/eventtape.rs", "        canonically_sorted.sort();\n", "        canonically_sorted.sort_by_key(|(event, _)| event.address);\n")]
APPEND = ("sdk", "native/eventtape.rs")
DEMO = r'''
    use crate::common::types::{EventType, StateObject};
    #[test]
    fn order_of_emission_does_not_matter() {
        let ev = |type_, b: u8| {
            let mut o = StateObject::default();
            o.address.0[0] = 7;
            o.data = vec![b];
            Event { type_, object: o }
        };
        let (a, b, c) = (ev(EventType::Write, 1), ev(EventType::Read, 2), ev(EventType::Ensure, 3));
        let h = |v: Vec<Event>| OrderedEvents::new(v).canonical_hash();
        let first = h(vec![a.clone(), b.clone(), c.clone()]);
        assert_eq!(first, h(vec![b.clone(), c.clone(), a.clone()]));
        assert_eq!(first, h(vec![c, a, b]));
    }
'''
