from mut import *
B = 'invoice/src/builder.rs'
P = 'J07'
mut('u-new-expiry', B, 'expiry: None,', 'expiry: Some(0),', P)
mut('u-new-transports', B, 'transports: vec![RgbTransport::UnspecifiedMeans],', 'transports: vec![],', P)
mut('u-with', B, 'Self::new(beneficiary).set_contract(contract_id)', '{ let _ = contract_id; Self::new(beneficiary) }', P)
mut('u-rgb20', B, 'Self::with(contract_id, beneficiary).set_interface("RGB20")', 'Self::with(contract_id, beneficiary).set_interface("RGB21")', P)
mut('u-any', B, 'Self::new(beneficiary).set_interface("RGB20")', 'Self::new(beneficiary)', P)
mut('u-swap', B, 'self.0.assignment = Some(name.into());', 'self.0.operation = Some(name.into());', P)
mut('u-clears', B, 'self.0.contract = Some(contract_id);', 'self.0.contract = Some(contract_id); self.0.iface = None;', P)
mut('u-first', B, 'self.0.iface = Some(name.into());', 'if self.0.iface.is_none() { self.0.iface = Some(name.into()); }', P)
mut('u-expiry', B, 'self.0.expiry = Some(expiry);', 'self.0.expiry = if expiry > 0 { Some(expiry) } else { None };', P)
mut('u-amount-order', B, 'CoinAmount::with(integer, decimals, precision)', 'CoinAmount::with(decimals, integer, precision)', P)
mut('u-amount-ok', B, 'Err(_) => return Err(self),', 'Err(_) => return Ok(self),', P)
mut('u-amount-cleared', B, """            Ok(amount) => amount,
            Err(_) => return Err(self),""", """            Ok(amount) => amount,
            Err(_) => {
                self.0.owned_state = InvoiceState::Void;
                return Err(self);
            }""", P)
mut('u-amount-guard', B, """            .and_then(|value| value.checked_add(decimals))
            .is_none()""", """            .is_none()""", P)
mut('u-amount-guard2', B, """            .checked_convert(integer)
            .and_then(|value| value.checked_add(decimals))
            .is_none()""", """            .checked_convert(integer)
            .and_then(|value| value.checked_add(decimals))
            .is_some()""", P)
mut('u-amount-sat', [(B, """        if precision
            .checked_convert(integer)
            .and_then(|value| value.checked_add(decimals))
            .is_none()
        {
            return Err(self);
        }
""", ''), (B, 'amount.to_amount_unchecked()', 'precision.saturating_convert(integer).saturating_add(decimals)')], '', '', P)
mut('u-alloc', B, 'Allocation::with(token_index, fraction)', 'Allocation::with(fraction as u32, token_index as u64)', P)
mut('u-approx-floor', B, 'let coins = amount.floor();', 'let coins = amount.ceil();', P)
mut('u-approx-mul', B, 'precision.multiplier() as f64', '10f64.powi(precision.decimals() as i32 - 1)', P)
mut('u-approx-neg', B, 'if amount <= 0.0 {', 'if amount < 0.0 {', P)
mut('u-drop-any', B, 'self.0.transports.len() == 1 && self.0', 'self.0.transports.len() >= 1 && self.0', P)
mut('u-drop-or', B, 'self.0.transports.len() == 1 && self.0', 'self.0.transports.len() == 1 || self.0', P)
mut('u-drop-ne', B, '[0] == RgbTransport', '[0] != RgbTransport', P)
mut('u-drop-none', B, """        self.drop_unspecified_transport();
        self.0.transports.push(transport);""", 'self.0.transports.push(transport);', P)
mut('u-drop-after', B, """        self.drop_unspecified_transport();
        self.0.transports.push(transport);""", """        self.0.transports.push(transport);
        self.drop_unspecified_transport();""", P)
mut('u-drop-none2', B, """        self.drop_unspecified_transport();
        self.0.transports.extend(transports);""", 'self.0.transports.extend(transports);', P)
mut('u-replace', B, 'self.0.transports.extend(transports);', 'self.0.transports = transports.into_iter().collect();', P)
mut('u-skip', B, 'self.0.transports.extend(transports);', 'self.0.transports.extend(transports.into_iter().skip(1));', P)
mut('u-filter', B, 'self.0.transports.extend(transports);', 'self.0.transports.extend(transports.into_iter().filter(|t| *t != RgbTransport::UnspecifiedMeans));', P)
mut('u-parse-skip', B, """            .map(RgbTransport::from_str)
            .collect::<Result<Vec<_>, TransportParseError>>();""", """            .map(RgbTransport::from_str)
            .filter(|r| r.is_ok())
            .collect::<Result<Vec<_>, TransportParseError>>();""", P)
mut('u-parse-lost', B, """        let transports = match res {
            Err(err) => return Err((self, err)),""", """        let transports = match res {
            Err(err) => return Err((Self::new(self.0.beneficiary), err)),""", P)
mut('u-finish', B, 'pub fn finish(self) -> RgbInvoice { self.0 }', 'pub fn finish(mut self) -> RgbInvoice { if self.0.contract.is_none() { self.0.iface = None; } self.0 }', P)
# behaviour-preserving
mut('uq-helper', B, """    fn drop_unspecified_transport(&mut self) {
        if self.0.transports.len() == 1 && self.0.transports[0] == RgbTransport::UnspecifiedMeans {
            self.0.transports = vec![];
        }
    }
""", """    fn has_only_unspecified(&self) -> bool {
        self.0.transports.len() == 1 && self.0.transports[0] == RgbTransport::UnspecifiedMeans
    }

    fn drop_unspecified_transport(&mut self) {
        if !self.has_only_unspecified() {
            return;
        }
        self.0.transports.clear();
    }
""", P, 0)
mut('uq-slice', B, """        if self.0.transports.len() == 1 && self.0.transports[0] == RgbTransport::UnspecifiedMeans {
            self.0.transports = vec![];
        }
""", """        if matches!(self.0.transports.as_slice(), [RgbTransport::UnspecifiedMeans]) {
            self.0.transports.clear();
        }
""", P, 0)
mut('uq-eqvec', B, 'if self.0.transports.len() == 1 && self.0.transports[0] == RgbTransport::UnspecifiedMeans {', 'if self.0.transports == vec![RgbTransport::UnspecifiedMeans] {', P, 0)
mut('uq-question', B, """        let transport = match RgbTransport::from_str(transport) {
            Err(err) => return Err((self, err)),
            Ok(transport) => transport,
        };
        Ok(self.add_transport_raw(transport))""", """        match transport.parse() {
            Ok(transport) => Ok(self.add_transport_raw(transport)),
            Err(err) => Err((self, err)),
        }""", P, 0)
mut('uq-loop', B, """        let res = transports
            .into_iter()
            .map(RgbTransport::from_str)
            .collect::<Result<Vec<_>, TransportParseError>>();
        let transports = match res {
            Err(err) => return Err((self, err)),
            Ok(transports) => transports,
        };
        Ok(self.add_transports_raw(transports))""", """        let mut list = vec![];
        for transport in transports {
            match RgbTransport::from_str(transport) {
                Err(err) => return Err((self, err)),
                Ok(transport) => list.push(transport),
            }
        }
        Ok(self.add_transports_raw(list))""", P, 0)
mut('uq-loopraw', B, """        self.0.transports.extend(transports);
        self""", """        for transport in transports {
            self.0.transports.push(transport);
        }
        self""", P, 0)
mut('uq-struct', B, """        self.0.expiry = Some(expiry);
        self""", """        Self(RgbInvoice {
            expiry: Some(expiry),
            ..self.0
        })""", P, 0)
mut('uq-with', B, """        Self::new(beneficiary).set_contract(contract_id)""", """        let mut builder = Self::new(beneficiary);
        builder.0.contract = Some(contract_id);
        builder""", P, 0)
mut('uq-amount', B, """        let amount = match CoinAmount::with(integer, decimals, precision) {
            Ok(amount) => amount,
            Err(_) => return Err(self),
        };
        if precision
            .checked_convert(integer)
            .and_then(|value| value.checked_add(decimals))
            .is_none()
        {
            return Err(self);
        }
        let amount = amount.to_amount_unchecked();
        self.0.owned_state = InvoiceState::Amount(amount);
        Ok(self)""", """        if CoinAmount::with(integer, decimals, precision).is_err() {
            return Err(self);
        }
        match precision
            .checked_convert(integer)
            .and_then(|value| value.checked_add(decimals))
        {
            Some(amount) => Ok(self.set_amount_raw(amount)),
            None => Err(self),
        }""", P, 0)
mut('uq-amount2', B, """        if precision
            .checked_convert(integer)
            .and_then(|value| value.checked_add(decimals))
            .is_none()
        {
            return Err(self);
        }
        let amount = amount.to_amount_unchecked();
        self.0.owned_state = InvoiceState::Amount(amount);""", """        let Some(value) = precision.checked_convert(integer) else {
            return Err(self);
        };
        let Some(_) = value.checked_add(decimals) else {
            return Err(self);
        };
        self.0.owned_state = InvoiceState::Amount(amount.to_amount_unchecked());""", P, 0)
mut('uq-approx', B, """        if amount <= 0.0 {
            return Err(self);
        }
        let coins = amount.floor();
        let cents = (amount - coins) * precision.multiplier() as f64;
        self.set_amount(coins as u64, cents as u64, precision)""", """        if amount > 0.0 {
            let multiplier = precision.multiplier() as f64;
            let coins = amount.trunc();
            let cents = multiplier * amount.fract();
            return self.set_amount(coins as u64, cents as u64, precision);
        }
        Err(self)""", P, 0)
mut('uq-alloc', B, """        Ok(self.set_allocation_raw(Allocation::with(token_index, fraction)))""", """        let allocation = Allocation::with(token_index, fraction);
        let builder = self.set_allocation_raw(allocation);
        Ok(builder)""", P, 0)
