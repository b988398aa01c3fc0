from mut import *
F='src/persistence/stock.rs'
mut('bug-nostash',F,'''            .and_then(|_| self.stash.commit_transaction().map_err(StockError::from))
''','','P01')
mut('bug-roll',F,'''                self.stash.rollback_transaction();
                self.index.rollback_transaction();''','''                self.stash.rollback_transaction();''','P02')
mut('bug-commit-before',F,'''        f(&mut self.stash, &mut self.state, &mut self.index)?;
        self.index
            .commit_transaction()
            .map_err(StockError::from)''','''        self.index
            .commit_transaction()
            .map_err(StockError::from)
            .and_then(|_| f(&mut self.stash, &mut self.state, &mut self.index))''','P01')
mut('bug-ignoreerr',F,'''        self.stash.consume_kit(kit)?;''','''        let _ = self.stash.consume_kit(kit);''','P01')
mut('bug-outside',F,'''        self.stash.begin_transaction()?;
        self.stash.consume_kit(kit)?;''','''        self.stash.consume_kit(kit)?;
        self.stash.begin_transaction()?;''','P01')
mut('bug-rollwrong',F,'''            .inspect_err(|_| self.state.rollback_transaction())?;''','''            .inspect_err(|_| self.stash.rollback_transaction())?;''','P02')
mut('ref-q',F,'''        self.index
            .commit_transaction()
            .map_err(StockError::from)
            .and_then(|_| self.state.commit_transaction().map_err(StockError::from))
            .and_then(|_| self.stash.commit_transaction().map_err(StockError::from))
            .inspect_err(|_| {
                self.state.rollback_transaction();
                self.stash.rollback_transaction();
                self.index.rollback_transaction();
            })''','''        if let Err(err) = self.commit_all() {
            self.index.rollback_transaction();
            self.stash.rollback_transaction();
            self.state.rollback_transaction();
            return Err(err);
        }
        Ok(())
    }

    fn commit_all<E: Error>(&mut self) -> Result<(), StockError<S, H, P, E>> {
        self.stash.commit_transaction()?;
        self.state.commit_transaction()?;
        self.index.commit_transaction()?;
        Ok(())''','P01 P02',0)
mut('bug-memcommit','src/persistence/memory.rs','fn commit_transaction(&mut self) -> Result<(), Self::TransactionErr> { Ok(self.store()?) }','fn commit_transaction(&mut self) -> Result<(), Self::TransactionErr> { self.store().ok(); Ok(()) }','P01')
mut('bug-secret','src/persistence/stash.rs','        self.commit_transaction()?;\n','','P01')
