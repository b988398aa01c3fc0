from mut import *
F='src/persistence/stock.rs'
def b(n,o,w,ids='C02'): mut(n,F,o,w,ids,1)
def q(n,o,w,ids='C02 C03'): mut(n,F,o,w,ids,0)
b('change-whole',"                        sum_main - paid_main,\n","                        sum_main,\n")
b('alt-change-skip',"if sum_alt > paid_alt {","if sum_alt > paid_alt && sum_main == Amount::ZERO {")
b('off',"if sum_main < amt { (sum_main, amt - sum_main) } else","if sum_main <= amt { (sum_main, Amount::ZERO) } else")
b('sum-alt-eq',"                    if output.method() != method {\n                        sum_alt += value;","                    if output.method() == method {\n                        sum_alt += value;")
b('insuff',"if sum_inputs < amt {","if sum_inputs + sum_alt < amt {")
b('benef-alt',"""                        assignment_id,
                        beneficiary,
                        paid_alt,""","""                        assignment_id,
                        beneficiary,
                        paid_main,""")
b('change-to-benef',"""                        assignment_id,
                        change_seal,
                        sum_alt - paid_alt,""","""                        assignment_id,
                        beneficiary,
                        sum_alt - paid_alt,""")
b('data-dup',"if !data_found && lookup_state.as_ref() == Some(value) {","if lookup_state.as_ref() == Some(value) {")
b('data-main',"data_main = output.method() == method;","data_main = output.method() != method;")
b('expiry',"if expiry < Utc::now().timestamp() {","if expiry > Utc::now().timestamp() {")
b('othertype-wrongbuilder',"""                    state.update_blinding(pedersen_blinder(contract_id, assignment_id));
                    if output.method() == method {""","""                    state.update_blinding(pedersen_blinder(contract_id, assignment_id));
                    if true {""")
b('inputs-swap',"(true, true) => (main_builder, main_inputs, Some(alt_builder), alt_inputs),","(true, true) => (main_builder, alt_inputs, Some(alt_builder), main_inputs),")
b('second-lost',"(true, true) => (main_builder, main_inputs, Some(alt_builder), alt_inputs),","(true, true) => (main_builder, main_inputs, Some(alt_builder).filter(|_| false), alt_inputs),")
b('wmethod',"GraphSeal::with_blinded_vout(payload.method, vout, blinding)","GraphSeal::with_blinded_vout(method, vout, blinding)")
b('nopriority',"batch.set_priority(priority);","if priority > 0 { batch.set_priority(0) };")
b('zero-amt-keep',"} else if let PersistedState::Amount(value, _, _) = state {","} else if let (PersistedState::Amount(value, _, _), true) = (&state, list_len < 100) {".replace('(&state, list_len < 100)','(state.clone(), opout.no < 100)').replace('&state','state'))
b('blank-skip-void',"""                for (opout, state) in assigns {
                    let seal = output_for""","""                for (opout, state) in assigns {
                    if matches!(state, PersistedState::Void) { continue }
                    let seal = output_for""",'C03')
b('blank-type',".add_input(opout, state.clone())?\n                                .add_owned_state_raw(opout.ty, seal, state)?\n                        }\n                        Method::OpretFirst",".add_input(opout, state.clone())?\n                                .add_owned_state_raw(assignment_id, seal, state)?\n                        }\n                        Method::OpretFirst",'C03')
b('blank-swap',"[(blank_builder_tapret, outputs_tapret), (blank_builder_opret, outputs_opret)]","[(blank_builder_tapret, outputs_opret), (blank_builder_opret, outputs_tapret)]",'C03')
b('blank-break',"if dicho.is_empty() {\n                continue;","if dicho.is_empty() {\n                break;",'C03')
b('blank-one',"entry.entry(seal).or_default().extend(assigns);","if entry.is_empty() { entry.entry(seal).or_default().extend(assigns); }",'C03')
b('blank-id',"let state = self.contract_assignments_for(id, prev_outputs.iter().copied())?;","let state = self.contract_assignments_for(id, prev_outputs.iter().copied().take(1))?;",'C03')
b('blank-seal',"let seal = output_for_assignment(id, opout.ty)?;\n                    match output","let seal = output_for_assignment(contract_id, opout.ty)?;\n                    match output",'C03')
# quiet
q('r-summain',"                    sum_inputs += value;\n                    if output.method() != method {\n                        sum_alt += value;\n                    }","                    if output.method() == method {\n                        sum_inputs += value;\n                    } else {\n                        sum_alt += value;\n                        sum_inputs += value;\n                    }")
mut('r-mainsum',[(F,"                    sum_inputs += value;\n                    if output.method() != method {\n                        sum_alt += value;\n                    }","                    if output.method() == method {\n                        sum_main += value;\n                    } else {\n                        sum_alt += value;\n                    }"),(F,"let mut sum_inputs = Amount::ZERO;","let mut sum_main = Amount::ZERO;"),(F,"                let sum_main = sum_inputs - sum_alt;\n",""),(F,"if sum_inputs < amt {","if sum_main + sum_alt < amt {")],None,None,'C02 C03',0)
q('r-pay',"if sum_main < amt { (sum_main, amt - sum_main) } else { (amt, Amount::ZERO) };","if sum_main >= amt { (amt, Amount::ZERO) } else { (sum_main, amt - sum_main) };")
q('r-min',"""                let (paid_main, paid_alt) =
                    if sum_main < amt { (sum_main, amt - sum_main) } else { (amt, Amount::ZERO) };""","""                let paid_main = sum_main.min(amt);
                let paid_alt = amt - paid_main;""")
q('r-ismain',"            if output.method() == method {\n                main_inputs.push(output)","            let is_main = output.method() == method;\n            if is_main {\n                main_inputs.push(output)")
mut('r-flag',[(F,"            if output.method() == method {\n                main_inputs.push(output)","            let is_main = output.method() == method;\n            if is_main {\n                main_inputs.push(output)"),(F,"                if output.method() == method {\n                    main_builder = main_builder.add_input","                if is_main {\n                    main_builder = main_builder.add_input"),(F,"if output.method() != method {\n                        sum_alt","if !is_main {\n                        sum_alt"),(F,"data_main = output.method() == method;","data_main = is_main;")],None,None,'C02 C03',0)
q('r-helper',"""            match (main_builder.has_inputs(), alt_builder.has_inputs()) {
                (true, true) => (main_builder, main_inputs, Some(alt_builder), alt_inputs),
                (true, false) => (main_builder, main_inputs, None, alt_inputs),
                (false, true) => (alt_builder, alt_inputs, None, main_inputs),
                (false, false) => return Err(ComposeError::InsufficientState.into()),
            };""","""            if main_builder.has_inputs() {
                if alt_builder.has_inputs() {
                    (main_builder, main_inputs, Some(alt_builder), alt_inputs)
                } else {
                    (main_builder, main_inputs, None, alt_inputs)
                }
            } else if alt_builder.has_inputs() {
                (alt_builder, alt_inputs, None, main_inputs)
            } else {
                return Err(ComposeError::InsufficientState.into());
            };""")
q('r-blank-if',"if !blank_builder.has_inputs() {\n                    continue;\n                }\n                let transition = blank_builder.complete_transition()?;\n                let info = TransitionInfo::new(transition, outputs).map_err(|e| {\n                    debug_assert!(!matches!(e, TransitionInfoError::CloseMethodDivergence(_)));\n                    ComposeError::TooManyInputs\n                })?;\n                dicho.push(info);\n","if blank_builder.has_inputs() {\n                let transition = blank_builder.complete_transition()?;\n                let info = TransitionInfo::new(transition, outputs).map_err(|e| {\n                    debug_assert!(!matches!(e, TransitionInfoError::CloseMethodDivergence(_)));\n                    ComposeError::TooManyInputs\n                })?;\n                dicho.push(info);\n                }\n")
q('r-filter',"""        for id in self.contracts_assigning(prev_outputs.iter().copied())? {
            // Skip current contract
            if id == contract_id {
                continue;
            }
""","""        for id in self
            .contracts_assigning(prev_outputs.iter().copied())?
            .filter(|id| *id != contract_id)
        {
""")
q('r-blank-once',"""                    let seal = output_for_assignment(id, opout.ty)?;
                    match output.method() {
                        Method::TapretFirst => {
                            blank_builder_tapret = blank_builder_tapret
                                .add_input(opout, state.clone())?
                                .add_owned_state_raw(opout.ty, seal, state)?
                        }
                        Method::OpretFirst => {
                            blank_builder_opret = blank_builder_opret
                                .add_input(opout, state.clone())?
                                .add_owned_state_raw(opout.ty, seal, state)?
                        }
                    }""","""                    let seal = output_for_assignment(id, opout.ty)?;
                    if output.method() == Method::TapretFirst {
                        blank_builder_tapret = blank_builder_tapret.add_input(opout, state.clone())?;
                        blank_builder_tapret =
                            blank_builder_tapret.add_owned_state_raw(opout.ty, seal, state)?;
                    } else {
                        blank_builder_opret = blank_builder_opret.add_input(opout, state.clone())?;
                        blank_builder_opret =
                            blank_builder_opret.add_owned_state_raw(opout.ty, seal, state)?;
                    }""")
q('r-benef',"""        let beneficiary = match (invoice.beneficiary.into_inner(), beneficiary_vout) {
            (Beneficiary::BlindedSeal(seal), None) => {
                BuilderSeal::Concealed(XChain::with(layer1, seal))
            }
            (Beneficiary::BlindedSeal(_), Some(_)) => {
                return Err(ComposeError::BeneficiaryVout.into());
            }
            (Beneficiary::WitnessVout(payload), Some(vout)) => {
                let blinding = seal_blinder(contract_id, assignment_id);
                let seal = GraphSeal::with_blinded_vout(payload.method, vout, blinding);
                BuilderSeal::Revealed(XChain::with(layer1, seal))
            }
            (Beneficiary::WitnessVout(_), None) => {
                return Err(ComposeError::NoBeneficiaryOutput.into());
            }
        };""","""        let beneficiary = match invoice.beneficiary.into_inner() {
            Beneficiary::BlindedSeal(seal) => {
                if beneficiary_vout.is_some() {
                    return Err(ComposeError::BeneficiaryVout.into());
                }
                BuilderSeal::Concealed(XChain::with(layer1, seal))
            }
            Beneficiary::WitnessVout(payload) => {
                let vout = beneficiary_vout.ok_or(ComposeError::NoBeneficiaryOutput)?;
                let blinding = seal_blinder(contract_id, assignment_id);
                let seal = GraphSeal::with_blinded_vout(payload.method, vout, blinding);
                BuilderSeal::Revealed(XChain::with(layer1, seal))
            }
        };""")
