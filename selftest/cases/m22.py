from mut import *
A = 'invoice/src/amount.rs'
P = 'J08'
mut('w-be', A, 'self.0.to_le_bytes()', 'self.0.to_be_bytes()', P)
mut('w-pos', A, '.rposition(|b| *b != 0)', '.position(|b| *b != 0)', P)
mut('w-eq', A, '.rposition(|b| *b != 0)', '.rposition(|b| *b == 0)', P)
mut('w-or', A, 'unwrap_or(0) + 1', 'unwrap_or(7) + 1', P)
mut('w-plus', A, '.unwrap_or(0) + 1;', '.map(|p| p + 1).unwrap_or(0);', P)
mut('w-len', A, 'if len > 8 {', 'if len >= 8 {', P)
mut('w-len2', A, 'if len > 8 {', 'if len > 9 {', P)
mut('w-frombe', A, 'u64::from_le_bytes(le)', 'u64::from_be_bytes(le)', P)
mut('w-end', A, 'le[..len].copy_from_slice(&amount);', 'le[8 - len..].copy_from_slice(&amount);', P)
mut('w-fill', A, 'let mut le = [0u8; 8];', 'let mut le = [0xffu8; 8];', P)
mut('w-round', A, 'let inc = 2 * self.rem(precision) / mul;', 'let inc = self.rem(precision) / mul;', P)
mut('w-round2', A, 'let inc = 2 * self.rem(precision) / mul;', 'let inc = (2 * self.rem(precision) > mul) as u64;', P)
mut('w-ceil', A, 'if self.rem(precision) > 0 { 1 }', 'if self.rem(precision) > 1 { 1 }', P)
mut('w-ceil2', A, 'if self.rem(precision) > 0 { 1 } else { 0 }', '1', P)
mut('w-dot', A, 'if self.fract > 0 || f.alternate() {', 'if self.fract > 1 || f.alternate() {', P)
mut('w-pad', A, 'width = decimals - len);', 'width = decimals - len - 1);', P)
mut('w-padchar', A, '"{:0>width$}{float}"', '"{float}{:0>width$}"', P)
mut('w-trim', A, "float.trim_end_matches('0')", "float.trim_matches('0')", P)
mut('w-prec', A, 'write!(f, "~{}", self.precision.decimals())?;', 'if self.precision.decimals() > 0 { write!(f, "~{}", self.precision.decimals())?; }', P)
mut('w-split', A, """        let (number, precision) = s.split_once('~').unwrap_or((&s, ""));
        let (int, fract) = number.split_once('.').unwrap_or((number, "0"));
""", """        let (int, remain) = s.split_once('.').unwrap_or((&s, "0"));
        let (fract, precision) = remain.split_once('~').unwrap_or((remain, ""));
""", P)
mut('w-scale', A, 'Some(zeros) => value * 10u64.pow(zeros as u32),', 'Some(_) => value,', P)
mut('w-long', A, 'None => return Err(AmountParseError::FractOverflow),', 'None => value,', P)
mut('w-long2', A, 'None if value == 0 => 0,', 'None if value < 10 => 0,', P)
mut('w-order', A, """        f.write_str(&int)?;
        if self.fract""", """        f.write_char('.')?;
        f.write_str(&int)?;
        if self.fract""", P)
# behaviour-preserving
mut('wq-helper', A, """        let bytes = self.0.to_le_bytes();
        let pos = bytes.iter().rposition(|b| *b != 0).unwrap_or(0) + 1;
        let s = BASE32_NODIGIT.encode(&bytes[..pos]);
        f.write_str(&s)""", """        fn significant(bytes: &[u8; 8]) -> usize {
            match bytes.iter().rposition(|byte| *byte > 0) {
                Some(last) => last + 1,
                None => 1,
            }
        }
        let bytes = self.0.to_le_bytes();
        let s = BASE32_NODIGIT.encode(&bytes[..significant(&bytes)]);
        write!(f, "{s}")""", P, 0)
mut('wq-parse', A, """        let amount = BASE32_NODIGIT.decode_str(s)?;
        let len = amount.len();
        if len > 8 {
            return Err(fast32::DecodeError::InvalidLength {
                length: amount.len(),
            });
        }
        let mut le = [0u8; 8];
        le[..len].copy_from_slice(&amount);
        Ok(Amount(u64::from_le_bytes(le)))""", """        let amount = match BASE32_NODIGIT.decode_str(s) {
            Ok(amount) => amount,
            Err(err) => return Err(err),
        };
        let mut le = [0u8; 8];
        if amount.len() <= le.len() {
            le[..amount.len()].copy_from_slice(&amount);
            return Ok(u64::from_le_bytes(le).into());
        }
        let length = amount.len();
        Err(fast32::DecodeError::InvalidLength { length })""", P, 0)
mut('wq-ceil', A, """        let inc = if self.rem(precision) > 0 { 1 } else { 0 };
        self.0 / precision.multiplier() + inc""", """        let mul = precision.multiplier();
        let whole = self.0 / mul;
        if self.0 % mul == 0 {
            whole
        } else {
            whole + 1
        }""", P, 0)
mut('wq-divceil', A, """        if self.0 == 0 {
            return 0;
        }
        let inc = if self.rem(precision) > 0 { 1 } else { 0 };
        self.0 / precision.multiplier() + inc""", """        self.0.div_ceil(precision.multiplier())""", P, 0)
mut('wq-round', A, """        if self.0 == 0 {
            return 0;
        }
        let inc = 2 * self.rem(precision) / mul;
        self.0 / mul + inc""", """        let inc = if 2 * (self.0 % mul) >= mul { 1 } else { 0 };
        self.floor(precision) + inc""", P, 0)
mut('wq-pad', A, """            match len.cmp(&decimals) {
                Ordering::Less => {
                    float = format!("{:0>width$}{float}", "", width = decimals - len);
                }
                Ordering::Equal => {}
                Ordering::Greater => panic!("float precision overflow for coin amount {self:?}"),
            }""", """            if len > decimals {
                panic!("float precision overflow for coin amount {self:?}");
            }
            if len < decimals {
                float = format!("{:0>width$}{float}", "", width = decimals - len);
            }""", P, 0)
mut('wq-tail', A, """        if !f.alternate() {
            write!(f, "~{}", self.precision.decimals())?;
        }
        Ok(())""", """        if f.alternate() {
            return Ok(());
        }
        write!(f, "~{}", self.precision.decimals())""", P, 0)
mut('wq-scale', A, """        let fract = match (precision.decimals() as usize).checked_sub(fract.len()) {
            Some(zeros) => value * 10u64.pow(zeros as u32),
            None if value == 0 => 0,
            None => return Err(AmountParseError::FractOverflow),
        };
""", """        let decimals = precision.decimals() as usize;
        let fract = if decimals < fract.len() {
            if value != 0 {
                return Err(AmountParseError::FractOverflow);
            }
            0
        } else {
            value * 10u64.pow((decimals - fract.len()) as u32)
        };
""", P, 0)
mut('wq-chunks', A, """        let mut int = self.int.to_string();
        if f.alternate() {
            int = to_chunks(&int);
        }
        f.write_str(&int)?;""", """        let int = if f.alternate() {
            to_chunks(&self.int.to_string())
        } else {
            self.int.to_string()
        };
        f.write_str(&int)?;""", P, 0)
