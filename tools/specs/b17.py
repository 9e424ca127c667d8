ID, PROP = "B17", "P14"
NEEDS = "a callee that itself calls another program"
BREAKS = "the caller's return value is written over that of the last nested call, and its own stays empty"
EDITS = [("sdk/src/native/calltape.rs", "        self.writer[inserted_idx].return_ =\n            rkyv::to_bytes::<_, 256, _>(&resolved_value).unwrap().into();\n        self.identity_stack.borrow_mut().rm_identity();\n", "        self.identity_stack.borrow_mut().rm_identity();\n        let return_ = rkyv::to_bytes::<_, 256, _>(&resolved_value).unwrap();\n        self.writer[inserted_idx..]\n            .iter_mut()\n            .filter(|call| call.caller != recipient_program)\n            .for_each(|call| call.return_ = return_.clone().into());\n")]
APPEND = ("sdk", "native/calltape.rs")
DEMO = r'''
    #[test]
    fn own_return_only() {
        fn pid(v: u8) -> ProgramIdentifier { let mut p = ProgramIdentifier::default(); p.0.0[0] = v; p }
        let tape = RefCell::new(CallTape::default());
        // the tape is shared between caller and callee, as in the system tape
        let t: *mut CallTape = tape.as_ptr();
        let call = move |p: u8, v: u8| -> u8 { unsafe { &mut *t }.send(pid(p), v, |x: u8| x + 1) };
        let got = unsafe { &mut *t }.send(pid(1), 10u8, move |x: u8| {
            unsafe { &mut *t }.send(pid(2), x + 1, move |y: u8| call(3, y + 20) + 100)
        });
        assert_eq!(got, 132);
        let w = &unsafe { &*t }.writer;
        let v: Vec<(u8, u8, Vec<u8>)> = w.iter().map(|c| (c.caller.0.0[0], c.callee.0.0[0], c.return_.0.clone())).collect();
        assert_eq!(v, vec![(0, 1, vec![132]), (1, 2, vec![132]), (2, 3, vec![32])]);
    }
'''
