from mut import *

A = 'invoice/src/amount.rs'
ST = 'src/persistence/stock.rs'
FL = '''        if self.0 == 0 {
            return 0;
        }
        self.0 / precision.into().multiplier()'''
mut('am-floor-neg', A, FL, FL.replace('self.0 == 0', 'self.0 != 0'), 'J08', 1)
mut('am-floor-one', A, FL, FL.replace('self.0 == 0', 'self.0 <= 1000'), 'J08', 1)
mut('am-rem-div', A, 'self.0 % precision.into().multiplier()', 'self.0 / precision.into().multiplier()', 'J08', 1)
mut('am-prec-neg', A, 'let precision = if precision.is_empty() {', 'let precision = if !precision.is_empty() {', 'J08', 1)
mut('am-prec-none', A, '''        let precision = if precision.is_empty() {
            fract.len() as u64
        } else {
            precision
                .parse()
                .map_err(AmountParseError::InvalidPrecision)?
        };''', '''        let precision: u64 = precision
            .parse()
            .map_err(AmountParseError::InvalidPrecision)?;''', 'J08', 1)
mut('amq-floor-direct', A, FL, '''        let precision = precision.into();
        self.0 / precision.multiplier()''', 'J08', 0)
mut('amq-floor-sub', A, FL, '''        let precision = precision.into();
        match self.0 {
            0 => 0,
            value => value / precision.multiplier(),
        }''', 'J08', 0)
mut('amq-prec-match', A, '''        let precision = if precision.is_empty() {
            fract.len() as u64
        } else {
            precision
                .parse()
                .map_err(AmountParseError::InvalidPrecision)?
        };''', '''        let precision = match precision {
            "" => fract.len() as u64,
            digits => digits.parse().map_err(AmountParseError::InvalidPrecision)?,
        };''', 'J08', 0)
mut('amq-prec-early', A, '''        let precision = if precision.is_empty() {
            fract.len() as u64
        } else {
            precision
                .parse()
                .map_err(AmountParseError::InvalidPrecision)?
        };''', '''        let mut decimals = fract.len() as u64;
        if !precision.is_empty() {
            decimals = precision
                .parse()
                .map_err(AmountParseError::InvalidPrecision)?;
        }
        let precision = decimals;''', 'J08', 0)
mut('c3q-copied-map', ST, 'self.contract_assignments_for(id, prev_outputs.iter().copied())?', 'self.contract_assignments_for(id, prev_outputs.iter().map(|o| *o))?', 'C03 C01', 0)
mut('c3q-cloned-map', ST, 'self.contract_assignments_for(id, prev_outputs.iter().copied())?', 'self.contract_assignments_for(id, prev_outputs.iter().map(|o| o.clone()))?', 'C03 C01', 0)
mut('c3-skip', ST, 'self.contract_assignments_for(id, prev_outputs.iter().copied())?', 'self.contract_assignments_for(id, prev_outputs.iter().copied().skip(1))?', 'C03', 1)
M = 'src/persistence/memory.rs'
mut('k2-max', M, '                Some(level) => *level,\n', '                Some(level) => (*level).max(TrustLevel::default()),\n', 'K02', 1)
mut('k2-map', M, '                Some(level) => *level,\n', '                Some(TrustLevel::Malicious) => TrustLevel::Unknown,\n                Some(level) => *level,\n', 'K02', 1)
mut('k2q-if', M, '''            match self.identities.get(id) {
                Some(level) => *level,
                None => {
                    let level = TrustLevel::default();
                    // We ignore if the identities are full
                    self.identities.insert(id.clone(), level).ok();
                    level
                }
            }
            .should_accept()''', '''            let known = self.identities.get(id).copied();
            if known.is_none() {
                // We ignore if the identities are full
                self.identities
                    .insert(id.clone(), TrustLevel::default())
                    .ok();
            }
            known.unwrap_or_default().should_accept()''', 'K02', 0)
mut('k2q-let', M, '''            match self.identities.get(id) {
                Some(level) => *level,
                None => {
                    let level = TrustLevel::default();
                    // We ignore if the identities are full
                    self.identities.insert(id.clone(), level).ok();
                    level
                }
            }
            .should_accept()''', '''            if let Some(level) = self.identities.get(id) {
                return level.should_accept();
            }
            let level = TrustLevel::default();
            self.identities.insert(id.clone(), level).ok();
            level.should_accept()''', 'K02', 0)
IMP = '''        let sigs = sigs.into_iter().filter(|(id, _)| {
            match self.identities.get(id) {
                Some(level) => *level,
                None => {
                    let level = TrustLevel::default();
                    // We ignore if the identities are full
                    self.identities.insert(id.clone(), level).ok();
                    level
                }
            }
            .should_accept()
        });
'''
mut('k2q-loop', M, IMP, '''        let mut accepted = Vec::new();
        for (id, sig) in sigs {
            let level = self.identities.get(&id).copied().unwrap_or_else(|| {
                TrustLevel::default()
            });
            if !self.identities.contains_key(&id) {
                self.identities.insert(id.clone(), level).ok();
            }
            if level.should_accept() {
                accepted.push((id, sig));
            }
        }
        let sigs = accepted;
''', 'K02', 0)
mut('k2q-collect', M, IMP, IMP.replace('''        });
''', '''        })
        .collect::<Vec<_>>();
'''), 'K02', 0)
mut('k2q-ge', M, IMP, IMP.replace('match self', 'let level = match self').replace('''            }
            .should_accept()
''', '''            };
            level >= TrustLevel::Unknown
'''), 'K02', 0)
