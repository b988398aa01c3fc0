from mut import *
F='src/containers/partials.rs'
def b(n,o,w,cnt=1): mut(n,F,o,w,'B01',1,cnt)
def q(n,o,w,cnt=1): mut(n,F,o,w,'B01',0,cnt)
b('b-any',"seals.iter().any(|s| s.method() != method)","seals.iter().all(|s| s.method() != method)")
b('b-skip',"seals.iter().any(|s| s.method() != method)","seals.iter().skip(2).any(|s| s.method() != method)")
b('b-noid',"        self.transition.nonce = priority;\n        self.id = self.transition.id();","        self.transition.nonce = priority;")
b('b-early',"        self.transition.nonce = priority;\n        self.id = self.transition.id();","        self.id = self.transition.id();\n        self.transition.nonce = priority;")
b('b-prio2',"            info.first.set_priority(priority);\n            if let Some(info) = &mut info.second {\n                info.set_priority(priority);\n            }","            info.first.set_priority(priority);")
b('b-prio3',"        for info in &mut self.blanks {","        for info in self.blanks.iter_mut().skip(1) {")
b('b-both',"            self\n        } else {\n            Self::Both","            self\n        } else {\n            Self::TapretFirst")
b('b-or',"if let Some(m) = self {\n            rhs |= m\n        };\n        rhs","if let Some(m) = self {\n            rhs = m\n        };\n        rhs")
b('b-has',"matches!(self, Self::TapretFirst | Self::Both)","matches!(self, Self::TapretFirst)")
b('b-set1',"            .filter_map(|i| i.second.as_ref())","            .filter_map(|i| i.second.as_ref())\n            .take(1)")
b('b-set2',"self.blanks.iter().for_each(|i| methods |= i.first.method);","if self.main.second.is_none() { self.blanks.iter().for_each(|i| methods |= i.first.method); }")
b('b-iter',"        let mut vec = self.blanks.release();\n        vec.push(self.main);","        let mut vec = self.blanks.release();\n        if vec.is_empty() { vec.push(self.main); }")
b('b-ins',"seals.iter().copied().map(XOutpoint::from),","seals.iter().copied().filter(|s| s.method() == CloseMethod::OpretFirst).map(XOutpoint::from),")
b('b-max',"seals.first().expect(\"one item guaranteed\").method();","if seals.len() > 1 { seals[1].method() } else { seals[0].method() };") if False else None
b('b-cmp',"self.id.cmp(&other.id)","other.id.cmp(&self.id)")
b('b-from',"CloseMethod::OpretFirst => CloseMethodSet::OpretFirst,","CloseMethod::OpretFirst => CloseMethodSet::Both,")
q('q-loop',"        if seals.iter().any(|s| s.method() != method) {\n            return Err(TransitionInfoError::CloseMethodDivergence(id));\n        }","        for s in seals {\n            if s.method() != method {\n                return Err(TransitionInfoError::CloseMethodDivergence(id));\n            }\n        }")
q('q-all',"if seals.iter().any(|s| s.method() != method)","if !seals.iter().all(|s| s.method() == method)")
q('q-idx',"seals.first().expect(\"one item guaranteed\").method()","seals[0].method()")
q('q-matchor',"        if self == rhs.into() {\n            self\n        } else {\n            Self::Both\n        }","        match (self, rhs.into()) {\n            (Self::OpretFirst, Self::OpretFirst) => Self::OpretFirst,\n            (Self::TapretFirst, Self::TapretFirst) => Self::TapretFirst,\n            _ => Self::Both,\n        }")
q('q-has',"matches!(self, Self::TapretFirst | Self::Both)","self != Self::OpretFirst")
q('q-setloop',"        self.blanks.iter().for_each(|i| methods |= i.first.method);\n        self.blanks\n            .iter()\n            .filter_map(|i| i.second.as_ref())\n            .for_each(|i| methods |= i.method);\n        methods","        for blank in &self.blanks {\n            methods |= blank.first.method;\n            if let Some(second) = &blank.second {\n                methods |= second.method;\n            }\n        }\n        methods")
q('q-setor',"            methods |= info.method;","            methods = methods | info.method;")
q('q-setfold',"self.blanks.iter().for_each(|i| methods |= i.first.method);","methods = self.blanks.iter().fold(methods, |acc, i| acc | i.first.method);")
q('q-prio',"        for info in &mut self.blanks {\n            info.first.set_priority(priority);\n            if let Some(info) = &mut info.second {\n                info.set_priority(priority);\n            }\n        }","        self.blanks.iter_mut().for_each(|pair| {\n            pair.first.set_priority(priority);\n            pair.second.iter_mut().for_each(|i| i.set_priority(priority));\n        });")
q('q-prio2',"        self.main.first.set_priority(priority);\n        if let Some(info) = &mut self.main.second {\n            info.set_priority(priority);\n        }\n        for info in &mut self.blanks {\n            info.first.set_priority(priority);\n            if let Some(info) = &mut info.second {\n                info.set_priority(priority);\n            }\n        }","        fn raise(pair: &mut TransitionDichotomy, priority: u64) {\n            pair.first.set_priority(priority);\n            if let Some(info) = pair.second.as_mut() {\n                info.set_priority(priority);\n            }\n        }\n        raise(&mut self.main, priority);\n        for info in self.blanks.iter_mut() {\n            raise(info, priority);\n        }")
q('q-iter',"        let mut vec = self.blanks.release();\n        vec.push(self.main);","        let mut vec = Vec::with_capacity(self.blanks.len() + 1);\n        vec.extend(self.blanks);\n        vec.push(self.main);")
q('q-early',"        let id = transition.id();\n        let seals = seals.as_ref();\n        assert!(!seals.is_empty(), \"empty seals provided to transition info constructor\");","        let seals = seals.as_ref();\n        assert!(!seals.is_empty(), \"empty seals provided to transition info constructor\");\n        let id = transition.id();")
q('q-set',"        let inputs = Confined::<BTreeSet<_>, 1, U24>::try_from_iter(\n            seals.iter().copied().map(XOutpoint::from),\n        )\n        .map_err(|_| TransitionInfoError::TooMany(id))?;","        let mut outpoints = BTreeSet::new();\n        for seal in seals {\n            outpoints.insert(XOutpoint::from(*seal));\n        }\n        let inputs = Confined::<BTreeSet<_>, 1, U24>::try_from(outpoints)\n            .map_err(|_| TransitionInfoError::TooMany(id))?;")
q('q-cmp',"fn eq(&self, other: &Self) -> bool { self.id.eq(&other.id) }","fn eq(&self, other: &Self) -> bool { other.id == self.id }")
