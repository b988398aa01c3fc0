from mut import *
I = 'invoice/src/invoice.rs'
P = 'invoice/src/parse.rs'
D = 'invoice/src/data.rs'

# ---- J03: transport endpoints, the same behaviour in other forms
mut('j3-q-letelse', P, '''        let tokens = s.split_once(TRANSPORT_HOST_SEP);
        if tokens.is_none() {
            return Err(TransportParseError::InvalidTransport(s.to_string()));
        }
        let (trans_type, host) = tokens.unwrap();
''', '''        let Some((trans_type, host)) = s.split_once(TRANSPORT_HOST_SEP) else {
            return Err(TransportParseError::InvalidTransport(s.to_string()));
        };
''', 'J03', 0)
mut('j3-q-okor', P, '''        let tokens = s.split_once(TRANSPORT_HOST_SEP);
        if tokens.is_none() {
            return Err(TransportParseError::InvalidTransport(s.to_string()));
        }
        let (trans_type, host) = tokens.unwrap();
''', '''        let (trans_type, host) = s
            .split_once(TRANSPORT_HOST_SEP)
            .ok_or_else(|| TransportParseError::InvalidTransport(s.to_string()))?;
''', 'J03', 0)
mut('j3-q-helper', [(P, '''        let host = host.to_string();
        let transport = match trans_type {
            "rpc" => RgbTransport::JsonRpc { tls: false, host },
            "rpcs" => RgbTransport::JsonRpc { tls: true, host },
            "http" => RgbTransport::RestHttp { tls: false, host },
            "https" => RgbTransport::RestHttp { tls: true, host },
            "ws" => RgbTransport::WebSockets { tls: false, host },
            "wss" => RgbTransport::WebSockets { tls: true, host },
            "storm" => RgbTransport::Storm {},
            _ => return Err(TransportParseError::InvalidTransport(s.to_string())),
        };
        Ok(transport)
    }
}
''', '''        transport_for(trans_type, host.to_string())
            .ok_or_else(|| TransportParseError::InvalidTransport(s.to_string()))
    }
}

fn transport_for(scheme: &str, host: String) -> Option<RgbTransport> {
    Some(match scheme {
        "rpc" => RgbTransport::JsonRpc { tls: false, host },
        "rpcs" => RgbTransport::JsonRpc { tls: true, host },
        "http" => RgbTransport::RestHttp { tls: false, host },
        "https" => RgbTransport::RestHttp { tls: true, host },
        "ws" => RgbTransport::WebSockets { tls: false, host },
        "wss" => RgbTransport::WebSockets { tls: true, host },
        "storm" => RgbTransport::Storm {},
        _ => return None,
    })
}
''')], '', '', 'J03', 0)
mut('j3-q-orpat', P, '''            "rpc" => RgbTransport::JsonRpc { tls: false, host },
            "rpcs" => RgbTransport::JsonRpc { tls: true, host },
''', '''            "rpc" | "rpcs" => RgbTransport::JsonRpc { tls: trans_type == "rpcs", host },
''', 'J03', 0)
mut('j3-q-writestr', P, '''                let s = if *tls { "s" } else { "" };
                write!(f, "ws{s}{TRANSPORT_HOST_SEP}{}", host)?;
''', '''                f.write_str(if *tls { "wss" } else { "ws" })?;
                f.write_str(TRANSPORT_HOST_SEP)?;
                f.write_str(host)?;
''', 'J03', 0)
mut('j3-q-scheme', P, '''                let s = if *tls { "s" } else { "" };
                write!(f, "ws{s}{TRANSPORT_HOST_SEP}{}", host)?;
''', '''                match tls {
                    true => write!(f, "wss{TRANSPORT_HOST_SEP}{host}")?,
                    false => write!(f, "ws{TRANSPORT_HOST_SEP}{host}")?,
                }
''', 'J03', 0)
mut('j3-b-wss', P, '''                write!(f, "ws{s}{TRANSPORT_HOST_SEP}{}", host)?;
''', '''                write!(f, "http{s}{TRANSPORT_HOST_SEP}{}", host)?;
''', 'J03', 1)
mut('j3-b-https', P, '''"https" => RgbTransport::RestHttp { tls: true, host }''', '''"https" => RgbTransport::RestHttp { tls: false, host }''', 'J03', 1)
mut('j3-b-lower', P, '''        let host = host.to_string();
        let transport = match''', '''        let host = host.to_lowercase();
        let transport = match''', 'J03', 1)
mut('j3-b-trim', P, '''        let host = host.to_string();
        let transport = match''', '''        let host = host.trim_end_matches('/').to_string();
        let transport = match''', 'J03', 1)
mut('j3-b-rsplit', P, '''s.split_once(TRANSPORT_HOST_SEP);''', '''s.rsplit_once(TRANSPORT_HOST_SEP);''', 'J03', 1)
mut('j3-b-tls-neg', P, '''                let s = if *tls { "s" } else { "" };
                write!(f, "rpc{s}''', '''                let s = if *tls && !host.contains("localhost") { "s" } else { "" };
                write!(f, "rpc{s}''', 'J03', 1)

# ---- J01
mut('j1-q-loop', P, '''        match s.to_lowercase() {
            x if ChainNet::BitcoinMainnet.to_string() == x => Ok(ChainNet::BitcoinMainnet),
            x if ChainNet::BitcoinTestnet.to_string() == x => Ok(ChainNet::BitcoinTestnet),
            x if ChainNet::BitcoinSignet.to_string() == x => Ok(ChainNet::BitcoinSignet),
            x if ChainNet::BitcoinRegtest.to_string() == x => Ok(ChainNet::BitcoinRegtest),
            x if ChainNet::LiquidMainnet.to_string() == x => Ok(ChainNet::LiquidMainnet),
            x if ChainNet::LiquidTestnet.to_string() == x => Ok(ChainNet::LiquidTestnet),
            _ => Err(InvoiceParseError::Beneficiary(s.to_owned())),
        }
''', '''        let lower = s.to_lowercase();
        if lower == ChainNet::BitcoinMainnet.to_string() {
            Ok(ChainNet::BitcoinMainnet)
        } else if lower == ChainNet::BitcoinTestnet.to_string() {
            Ok(ChainNet::BitcoinTestnet)
        } else if lower == ChainNet::BitcoinSignet.to_string() {
            Ok(ChainNet::BitcoinSignet)
        } else if lower == ChainNet::BitcoinRegtest.to_string() {
            Ok(ChainNet::BitcoinRegtest)
        } else if lower == ChainNet::LiquidMainnet.to_string() {
            Ok(ChainNet::LiquidMainnet)
        } else if lower == ChainNet::LiquidTestnet.to_string() {
            Ok(ChainNet::LiquidTestnet)
        } else {
            Err(InvoiceParseError::Beneficiary(s.to_owned()))
        }
''', 'J01', 0)
mut('j1-q-lits', P, '''        match s.to_lowercase() {
            x if ChainNet::BitcoinMainnet.to_string() == x => Ok(ChainNet::BitcoinMainnet),
            x if ChainNet::BitcoinTestnet.to_string() == x => Ok(ChainNet::BitcoinTestnet),
            x if ChainNet::BitcoinSignet.to_string() == x => Ok(ChainNet::BitcoinSignet),
            x if ChainNet::BitcoinRegtest.to_string() == x => Ok(ChainNet::BitcoinRegtest),
            x if ChainNet::LiquidMainnet.to_string() == x => Ok(ChainNet::LiquidMainnet),
            x if ChainNet::LiquidTestnet.to_string() == x => Ok(ChainNet::LiquidTestnet),
            _ => Err(InvoiceParseError::Beneficiary(s.to_owned())),
        }
''', '''        match s.to_lowercase().as_str() {
            "bc" => Ok(ChainNet::BitcoinMainnet),
            "tb" => Ok(ChainNet::BitcoinTestnet),
            "sb" => Ok(ChainNet::BitcoinSignet),
            "bcrt" => Ok(ChainNet::BitcoinRegtest),
            "lq" => Ok(ChainNet::LiquidMainnet),
            "tl" => Ok(ChainNet::LiquidTestnet),
            _ => Err(InvoiceParseError::Beneficiary(s.to_owned())),
        }
''', 'J01', 0)
mut('j1-q-find', P, '''        match s.to_lowercase() {
            x if ChainNet::BitcoinMainnet.to_string() == x => Ok(ChainNet::BitcoinMainnet),
            x if ChainNet::BitcoinTestnet.to_string() == x => Ok(ChainNet::BitcoinTestnet),
            x if ChainNet::BitcoinSignet.to_string() == x => Ok(ChainNet::BitcoinSignet),
            x if ChainNet::BitcoinRegtest.to_string() == x => Ok(ChainNet::BitcoinRegtest),
            x if ChainNet::LiquidMainnet.to_string() == x => Ok(ChainNet::LiquidMainnet),
            x if ChainNet::LiquidTestnet.to_string() == x => Ok(ChainNet::LiquidTestnet),
            _ => Err(InvoiceParseError::Beneficiary(s.to_owned())),
        }
''', '''        let lower = s.to_lowercase();
        for net in [
            ChainNet::BitcoinMainnet,
            ChainNet::BitcoinTestnet,
            ChainNet::BitcoinSignet,
            ChainNet::BitcoinRegtest,
            ChainNet::LiquidMainnet,
            ChainNet::LiquidTestnet,
        ] {
            if net.to_string() == lower {
                return Ok(net);
            }
        }
        Err(InvoiceParseError::Beneficiary(s.to_owned()))
''', 'J01', 0)
mut('j1-q-matches', I, '''        match self {
            ChainNet::BitcoinMainnet | ChainNet::LiquidMainnet => true,

            ChainNet::BitcoinTestnet
            | ChainNet::BitcoinSignet
            | ChainNet::BitcoinRegtest
            | ChainNet::LiquidTestnet => false,
        }
''', '''        matches!(self, ChainNet::BitcoinMainnet | ChainNet::LiquidMainnet)
''', 'J01', 0)
mut('j1-q-eq', I, '''        match self {
            ChainNet::BitcoinMainnet | ChainNet::LiquidMainnet => true,

            ChainNet::BitcoinTestnet
            | ChainNet::BitcoinSignet
            | ChainNet::BitcoinRegtest
            | ChainNet::LiquidTestnet => false,
        }
''', '''        *self == ChainNet::BitcoinMainnet || *self == ChainNet::LiquidMainnet
''', 'J01', 0)
mut('j1-q-net', I, '''        match network {
            Network::Mainnet => Self::BitcoinMainnet(data),
            Network::Testnet3 => Self::BitcoinTestnet(data),
            Network::Testnet4 => Self::BitcoinTestnet(data),
            Network::Signet => Self::BitcoinSignet(data),
            Network::Regtest => Self::BitcoinRegtest(data),
        }
''', '''        let cn = match network {
            Network::Mainnet => ChainNet::BitcoinMainnet,
            Network::Testnet3 | Network::Testnet4 => ChainNet::BitcoinTestnet,
            Network::Signet => ChainNet::BitcoinSignet,
            Network::Regtest => ChainNet::BitcoinRegtest,
        };
        Self::with(cn, data)
''', 'J01', 0)

# ---- J02
mut('j2-q-okor', P, '''        let Some((cn, beneficiary)) = s.split_once(':') else {
            return Err(InvoiceParseError::Beneficiary(s.to_owned()));
        };
        let cn = ChainNet::from_str(cn)?;
        if let Ok(seal) = SecretSeal::from_str(beneficiary) {
            return Ok(XChainNet::with(cn, Beneficiary::BlindedSeal(seal)));
        }

        let payload = Pay2Vout::from_str(beneficiary)?;
        Ok(XChainNet::with(cn, Beneficiary::WitnessVout(payload)))
''', '''        let (cn, text) = s
            .split_once(':')
            .ok_or_else(|| InvoiceParseError::Beneficiary(s.to_owned()))?;
        let cn = cn.parse::<ChainNet>()?;
        let beneficiary = match text.parse::<SecretSeal>() {
            Ok(seal) => Beneficiary::BlindedSeal(seal),
            Err(_) => Beneficiary::WitnessVout(text.parse()?),
        };
        Ok(XChainNet::with(cn, beneficiary))
''', 'J02', 0)
mut('j2-q-orelse', P, '''        if let Ok(seal) = SecretSeal::from_str(beneficiary) {
            return Ok(XChainNet::with(cn, Beneficiary::BlindedSeal(seal)));
        }

        let payload = Pay2Vout::from_str(beneficiary)?;
        Ok(XChainNet::with(cn, Beneficiary::WitnessVout(payload)))
''', '''        let beneficiary = SecretSeal::from_str(beneficiary)
            .map(Beneficiary::BlindedSeal)
            .or_else(|_| Pay2Vout::from_str(beneficiary).map(Beneficiary::WitnessVout))?;
        Ok(XChainNet::with(cn, beneficiary))
''', 'J02', 0)
mut('j2-q-copy', P, '''        Cursor::new(&mut payload[2..])
            .write_all(spk)
            .expect("address payload always less than 32 bytes");
        payload
''', '''        payload[2..2 + spk.len()].copy_from_slice(spk);
        payload
''', 'J02', 0)
mut('j2-q-two', P, '''        let (addr_type, spk) = match &self.address {
            AddressPayload::Pkh(pkh) => (Self::P2PKH, pkh.as_ref()),
            AddressPayload::Sh(sh) => (Self::P2SH, sh.as_ref()),
            AddressPayload::Wpkh(wpkh) => (Self::P2WPKH, wpkh.as_ref()),
            AddressPayload::Wsh(wsh) => (Self::P2WSH, wsh.as_ref()),
            AddressPayload::Tr(tr) => {
                schnorr_pk = tr.to_byte_array();
                (Self::P2TR, &schnorr_pk[..])
            }
        };
        payload[1] = addr_type;
''', '''        payload[1] = match self.address {
            AddressPayload::Pkh(_) => Self::P2PKH,
            AddressPayload::Sh(_) => Self::P2SH,
            AddressPayload::Wpkh(_) => Self::P2WPKH,
            AddressPayload::Wsh(_) => Self::P2WSH,
            AddressPayload::Tr(_) => Self::P2TR,
        };
        let spk: &[u8] = match &self.address {
            AddressPayload::Pkh(pkh) => pkh.as_ref(),
            AddressPayload::Sh(sh) => sh.as_ref(),
            AddressPayload::Wpkh(wpkh) => wpkh.as_ref(),
            AddressPayload::Wsh(wsh) => wsh.as_ref(),
            AddressPayload::Tr(tr) => {
                schnorr_pk = tr.to_byte_array();
                &schnorr_pk
            }
        };
''', 'J02', 0)
mut('j2-q-slice', I, '''AddressPayload::Wsh(WScriptHash::from_slice_unsafe(&data[2..]))''', '''AddressPayload::Wsh(WScriptHash::from_slice_unsafe(&data[2..34]))''', 'J02', 0)
mut('j2-q-hash', I, '''        let address = match data[1] {
            Self::P2PKH => AddressPayload::Pkh(PubkeyHash::from_slice_unsafe(&data[2..22])),
            Self::P2SH => AddressPayload::Sh(ScriptHash::from_slice_unsafe(&data[2..22])),
            Self::P2WPKH => AddressPayload::Wpkh(WPubkeyHash::from_slice_unsafe(&data[2..22])),
''', '''        let kind = data[1];
        let hash20 = &data[2..22];
        let address = match kind {
            Self::P2PKH => AddressPayload::Pkh(PubkeyHash::from_slice_unsafe(hash20)),
            Self::P2SH => AddressPayload::Sh(ScriptHash::from_slice_unsafe(hash20)),
            Self::P2WPKH => AddressPayload::Wpkh(WPubkeyHash::from_slice_unsafe(hash20)),
''', 'J02', 0)
mut('j2-b-len', I, '''AddressPayload::Wsh(WScriptHash::from_slice_unsafe(&data[2..]))''', '''AddressPayload::Wsh(WScriptHash::from_slice_unsafe(&data[1..33]))''', 'J02', 1)
mut('j2-b-kind', P, '(Self::P2WSH, wsh.as_ref())', '(Self::P2WPKH, wsh.as_ref())', 'J02', 1)
mut('j2-b-swap', I, '''    pub(crate) const P2SH: u8 = 2;
''', '''    pub(crate) const P2SH: u8 = 3;
''', 'J02', 1)
mut('j2-b-method', P, 'payload[0] = self.method as u8;', 'payload[0] = self.method as u8 & 1;', 'J02', 1)
mut('j2-b-net', P, '''        Ok(XChainNet::with(cn, Beneficiary::WitnessVout(payload)))''', '''        Ok(XChainNet::with(ChainNet::BitcoinMainnet, Beneficiary::WitnessVout(payload)))''', 'J02', 1)

# ---- J04
mut('j4-q-stream', P, '''        let query_params = self.query_params();
        for (key, val) in query_params.iter().take(1) {
            write!(
                f,
                "{}={}",
                utf8_percent_encode(key, QUERY_ENCODE),
                utf8_percent_encode(val, QUERY_ENCODE)
            )?;
        }
        for (key, val) in query_params.iter().skip(1) {
            write!(
                f,
                "&{}={}",
                utf8_percent_encode(key, QUERY_ENCODE),
                utf8_percent_encode(val, QUERY_ENCODE)
            )?;
        }
        Ok(())
''', '''        for (no, (key, val)) in self.query_params().iter().enumerate() {
            if no > 0 {
                f.write_str("&")?;
            }
            write!(
                f,
                "{}={}",
                utf8_percent_encode(key, QUERY_ENCODE),
                utf8_percent_encode(val, QUERY_ENCODE)
            )?;
        }
        Ok(())
''', 'J04', 0)
mut('j4-q-sep', P, '''        let query_params = self.query_params();
        for (key, val) in query_params.iter().take(1) {
            write!(
                f,
                "{}={}",
                utf8_percent_encode(key, QUERY_ENCODE),
                utf8_percent_encode(val, QUERY_ENCODE)
            )?;
        }
        for (key, val) in query_params.iter().skip(1) {
            write!(
                f,
                "&{}={}",
                utf8_percent_encode(key, QUERY_ENCODE),
                utf8_percent_encode(val, QUERY_ENCODE)
            )?;
        }
        Ok(())
''', '''        let mut sep = "";
        for (key, val) in self.query_params() {
            let key = utf8_percent_encode(&key, QUERY_ENCODE);
            let val = utf8_percent_encode(&val, QUERY_ENCODE);
            write!(f, "{sep}{key}={val}")?;
            sep = "&";
        }
        Ok(())
''', 'J04', 0)
mut('j4-q-match', P, '''        if let Some(iface) = self.iface.clone() {
            write!(f, "{iface}/")?;
        } else {
            write!(f, "{OMITTED}/")?;
        }
''', '''        match &self.iface {
            Some(iface) => write!(f, "{iface}/")?,
            None => write!(f, "{OMITTED}/")?,
        }
''', 'J04', 0)
mut('j4-q-collect', P, '''            let tokens = endpoints.split(TRANSPORT_SEP);
            let mut transport_vec: Vec<RgbTransport> = vec![];
            for token in tokens {
                transport_vec.push(
                    RgbTransport::from_str(token)
                        .map_err(|e| InvoiceParseError::InvalidQueryParam(e.to_string()))?,
                );
            }
            transport_vec
''', '''            endpoints
                .split(TRANSPORT_SEP)
                .map(|token| {
                    RgbTransport::from_str(token)
                        .map_err(|e| InvoiceParseError::InvalidQueryParam(e.to_string()))
                })
                .collect::<Result<Vec<_>, _>>()?
''', 'J04', 0)
mut('j4-q-join', P, '''            let mut transports: Vec<String> = vec![];
            for transport in self.transports.clone() {
                transports.push(transport.to_string());
            }
            query_params.insert''', '''            let transports = self
                .transports
                .iter()
                .map(|transport| transport.to_string())
                .collect::<Vec<_>>();
            query_params.insert''', 'J04', 0)
mut('j4-q-expiry', P, '''        let mut expiry = None;
        if let Some(exp) = query_params.shift_remove(EXPIRY) {
            let timestamp = exp
                .parse::<i64>()
                .map_err(|e| InvoiceParseError::InvalidExpiration(e.to_string()))?;
            expiry = Some(timestamp);
        }
''', '''        let expiry = query_params
            .shift_remove(EXPIRY)
            .map(|exp| exp.parse::<i64>())
            .transpose()
            .map_err(|e| InvoiceParseError::InvalidExpiration(e.to_string()))?;
''', 'J04', 0)
mut('j4-q-state', P, '''        let (amount, beneficiary) = assignment
            .as_str()
            .split_once('+')
            .map(|(a, b)| (Some(a), Some(b)))
            .unwrap_or((Some(assignment.as_str()), None));
        // TODO: support other state types
        let (beneficiary_str, value) = match (beneficiary, amount) {
            (Some(b), Some(a)) => (
                b,
                InvoiceState::from_str(a).map_err(|_| InvoiceParseError::Data(a.to_string()))?,
            ),
            (None, Some(b)) => (b, InvoiceState::Void),
            _ => unreachable!(),
        };
''', '''        // TODO: support other state types
        let (beneficiary_str, value) = match assignment.as_str().split_once('+') {
            Some((a, b)) => (
                b,
                InvoiceState::from_str(a).map_err(|_| InvoiceParseError::Data(a.to_string()))?,
            ),
            None => (assignment.as_str(), InvoiceState::Void),
        };
''', 'J04', 0)
mut('j4-q-contract', P, '''        let contract = match ContractId::from_str(contract_id_str.as_str()) {
            Ok(cid) => Some(cid),
            Err(_) if contract_id_str.as_str() == OMITTED => None,
            Err(_) => {
                return Err(InvoiceParseError::InvalidContractId(contract_id_str.to_string()));
            }
        };
''', '''        let contract = if contract_id_str.as_str() == OMITTED {
            None
        } else {
            let id = ContractId::from_str(contract_id_str.as_str()).map_err(|_| {
                InvoiceParseError::InvalidContractId(contract_id_str.to_string())
            })?;
            Some(id)
        };
''', 'J04', 0)
mut('j4-q-params', P, '''        for p in params {
            if let Some((k, v)) = p.split_once('=') {
                map.insert(percent_decode(k)?, percent_decode(v)?);
            } else {
                return Err(InvoiceParseError::InvalidQueryParam(p.to_string()));
            }
        }
''', '''        for p in params {
            let (k, v) = p
                .split_once('=')
                .ok_or_else(|| InvoiceParseError::InvalidQueryParam(p.to_string()))?;
            let key = percent_decode(k)?;
            let val = percent_decode(v)?;
            map.insert(key, val);
        }
''', 'J04', 0)
mut('j4-q-next', P, '''        let Some(iface_str) = path.next() else {
            return Err(InvoiceParseError::IfaceMissed);
        };
''', '''        let iface_str = path.next().ok_or(InvoiceParseError::IfaceMissed)?;
''', 'J04', 0)
mut('j4-q-id', P, '''            let id = if f.alternate() {
                contract.to_string().replace('-', "")
            } else {
                contract.to_string()
            };
            write!(f, "{id}/")?;
''', '''            let mut id = contract.to_string();
            if f.alternate() {
                id = id.replace('-', "");
            }
            f.write_str(&id)?;
            f.write_str("/")?;
''', 'J04', 0)
mut('j4-q-istate', I, '''        if s.is_empty() {
            Ok(InvoiceState::Void)
        } else if let Ok(amount) = Amount::from_str(s) {
            Ok(InvoiceState::Amount(amount))
        } else if let Ok(data) = NonFungible::from_str(s) {
            Ok(InvoiceState::Data(data))
        } else if let Ok(attach) = AttachId::from_str(s) {
            Ok(InvoiceState::Attach(attach))
        } else {
            Err(InvoiceStateError::ParseError(s.to_owned()))
        }
''', '''        if s.is_empty() {
            return Ok(InvoiceState::Void);
        }
        Amount::from_str(s)
            .map(InvoiceState::Amount)
            .or_else(|_| NonFungible::from_str(s).map(InvoiceState::Data))
            .or_else(|_| AttachId::from_str(s).map(InvoiceState::Attach))
            .map_err(|_| InvoiceStateError::ParseError(s.to_owned()))
''', 'J04', 0)

# ---- J05 / J06
mut('j5-q-letelse', D, '''        *self = self.0.checked_add(other.into().0).map(Self)?;
        Some(())
''', '''        let Some(sum) = self.0.checked_add(other.into().0) else {
            return None;
        };
        self.0 = sum;
        Some(())
''', 'J05', 0)
mut('j5-q-own', D, '''        *self = self.0.checked_sub(other.into().0).map(Self)?;
        Some(())
''', '''        self.checked_sub(other).map(|res| *self = res)
''', 'J05', 0)
mut('j6-q-alloc', D, '''        if !s.contains('@') {
            return Err(AllocationParseError::WrongFormat);
        }

        match s.split_once('@') {
            Some((fraction, token_index)) => Ok(Allocation(
                token_index
                    .parse()
                    .map_err(|_| AllocationParseError::InvalidIndex(token_index.to_owned()))?,
                fraction
                    .parse()
                    .map_err(|_| AllocationParseError::InvalidFraction(fraction.to_lowercase()))?,
            )),
            None => Err(AllocationParseError::WrongFormat),
        }
''', '''        let (fraction, index) = s.split_once('@').ok_or(AllocationParseError::WrongFormat)?;
        let index = TokenIndex::from_str(index)
            .map_err(|_| AllocationParseError::InvalidIndex(index.to_owned()))?;
        let fraction = OwnedFraction::from_str(fraction)
            .map_err(|_| AllocationParseError::InvalidFraction(fraction.to_lowercase()))?;
        Ok(Allocation::with(index, fraction))
''', 'J06', 0)
A = 'invoice/src/amount.rs'
mut('j5-q-loopsum', A, '''impl Sum<u64> for Amount {
    fn sum<I: Iterator<Item = u64>>(iter: I) -> Self {
        iter.fold(Amount::ZERO, |sum, value| sum.saturating_add(value))
    }
''', '''impl Sum<u64> for Amount {
    fn sum<I: Iterator<Item = u64>>(iter: I) -> Self {
        let mut total = Amount::ZERO;
        for value in iter {
            total.saturating_add_assign(value);
        }
        total
    }
''', 'J05', 0)
mut('j5-q-mul', A, '''        amount
            .into()
            .checked_mul(self.multiplier())
            .map(Amount::from)
''', '''        let mul = self.multiplier();
        let value = amount.into().checked_mul(mul)?;
        Some(Amount(value))
''', 'J05', 0)
mut('j5-q-pow', A, '''        match self {
            Precision::Indivisible => 1,
            Precision::Deci => 10,
            Precision::Centi => 100,
            Precision::Milli => 1000,
            Precision::DeciMilli => 10_000,
            Precision::CentiMilli => 100_000,
            Precision::Micro => 1_000_000,
            Precision::DeciMicro => 10_000_000,
            Precision::CentiMicro => 100_000_000,
            Precision::Nano => 1_000_000_000,
            Precision::DeciNano => 10_000_000_000,
            Precision::CentiNano => 100_000_000_000,
            Precision::Pico => 1_000_000_000_000,
            Precision::DeciPico => 10_000_000_000_000,
            Precision::CentiPico => 100_000_000_000_000,
            Precision::Femto => 1_000_000_000_000_000,
            Precision::DeciFemto => 10_000_000_000_000_000,
            Precision::CentiFemto => 100_000_000_000_000_000,
            Precision::Atto => 1_000_000_000_000_000_000,
        }
''', '''        10u64.pow(self.decimals() as u32)
''', 'J05 J06 J08', 0)
mut('j6-q-mult', A, '''        let pow = 10u64.pow(precision.decimals() as u32);
        // number of decimals can't be larger than the smallest possible integer
        if fract >= pow {
            return Err(PrecisionError);
        }
        Ok(CoinAmount {
            int,
            fract,
            precision,
        })
''', '''        if fract < precision.multiplier() {
            Ok(CoinAmount {
                int,
                fract,
                precision,
            })
        } else {
            Err(PrecisionError)
        }
''', 'J06', 0)
mut('j6-q-split', A, '''        let precision = precision.into();
        let int = self.floor(precision);
        let fract = self.rem(precision);
        (int, fract)
''', '''        let mul = precision.into().multiplier();
        (self.0 / mul, self.0 % mul)
''', 'J06 J08', 0)
mut('j6-q-new', A, '''        let (int, fract) = amount.split(precision);
        CoinAmount {
            int,
            fract,
            precision,
        }
''', '''        CoinAmount {
            int: amount.floor(precision),
            fract: amount.rem(precision),
            precision,
        }
''', 'J06', 0)
mut('j6-q-conv', A, '''        self.int
            .checked_mul(pow)
            .expect("CoinAmount type garantees are broken")
            .checked_add(self.fract)
            .expect(
                "integer has at least the same number of zeros in the lowest digits as much as \\
                 decimals has digits at most, so overflow is not possible",
            )
            .into()
''', '''        let whole = self
            .int
            .checked_mul(pow)
            .expect("CoinAmount type garantees are broken");
        let total = whole.checked_add(self.fract).expect(
            "integer has at least the same number of zeros in the lowest digits as much as \\
             decimals has digits at most, so overflow is not possible",
        );
        Amount(total)
''', 'J06', 0)
