From e5b44fb9eaddf7b1f4c1787af2d800cf9a83146e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:56 +0000
Subject: [PATCH 1/9] fix: report an unrecoverable signature as
 ECDSAInvalidSignature

ecrecover returns empty output when recovery fails; slicing it trapped.
---
 contracts/src/utils/cryptography/ecdsa.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/contracts/src/utils/cryptography/ecdsa.rs b/contracts/src/utils/cryptography/ecdsa.rs
index 89d6d45..b8e7ab1 100644
--- a/contracts/src/utils/cryptography/ecdsa.rs
+++ b/contracts/src/utils/cryptography/ecdsa.rs
@@ -145,6 +145,11 @@ fn _recover(
         call::static_call(Call::new_in(storage), ECRECOVER_ADDR, &calldata)
             .expect("should call `ecrecover` precompile");
 
+    // The precompile returns no data when the signature is not recoverable.
+    if recovered.is_empty() {
+        return Err(ECDSAInvalidSignature {}.into());
+    }
+
     let recovered = Address::from_slice(&recovered[12..]);
 
     if recovered.is_zero() {
-- 
2.43.0


From 7254c0aa1c3faacacd36534ac4ac22460514f017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:00 +0000
Subject: [PATCH 2/9] fix: name the underlying token when its balance cannot be
 read

Erc20Wrapper::_recover reported the wrapper's own address.
---
 contracts/src/token/erc20/extensions/wrapper.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contracts/src/token/erc20/extensions/wrapper.rs b/contracts/src/token/erc20/extensions/wrapper.rs
index fc4a062..2a0c381 100644
--- a/contracts/src/token/erc20/extensions/wrapper.rs
+++ b/contracts/src/token/erc20/extensions/wrapper.rs
@@ -318,7 +318,7 @@ impl Erc20Wrapper {
 
         let underlying_balance = underline_token
             .balance_of(Call::new_in(self), contract_address)
-            .map_err(|_| ERC20InvalidUnderlying { token: contract_address })?;
+            .map_err(|_| ERC20InvalidUnderlying { token: self.underlying() })?;
 
         let value = underlying_balance
             .checked_sub(erc20.total_supply())
-- 
2.43.0


From 7b001e6d443fdb01560b8fc479c6ea6ca5e03a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:28 +0000
Subject: [PATCH 3/9] fix: clear the storage cache around SafeErc20 token calls

Values cached before the call went stale when a token called back into a
reentrant contract, e.g. Erc4626::deposit wrote a stale total supply.
---
 contracts/src/token/erc20/utils/safe_erc20.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/contracts/src/token/erc20/utils/safe_erc20.rs b/contracts/src/token/erc20/utils/safe_erc20.rs
index 2d493c1..b055db6 100644
--- a/contracts/src/token/erc20/utils/safe_erc20.rs
+++ b/contracts/src/token/erc20/utils/safe_erc20.rs
@@ -341,7 +341,7 @@ impl SafeErc20 {
         unsafe {
             match RawCall::new()
                 .limit_return_data(0, BOOL_TYPE_SIZE)
-                .flush_storage_cache()
+                .clear_storage_cache()
                 .call(token, &call.abi_encode())
             {
                 Ok(data) if data.is_empty() || Self::encodes_true(&data) => {
@@ -375,7 +375,7 @@ impl SafeErc20 {
         let result = unsafe {
             RawCall::new()
                 .limit_return_data(0, BOOL_TYPE_SIZE)
-                .flush_storage_cache()
+                .clear_storage_cache()
                 .call(token, &call.abi_encode())
                 .map_err(|_| {
                     Error::SafeErc20FailedOperation(SafeErc20FailedOperation {
-- 
2.43.0


From 35787c6bcb66c498d9426dfc248749ee949d7f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:32 +0000
Subject: [PATCH 4/9] fix: stop consecutive ERC-721 ids from wrapping at the
 end of the id space

---
 .../src/token/erc721/extensions/consecutive.rs  | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/contracts/src/token/erc721/extensions/consecutive.rs b/contracts/src/token/erc721/extensions/consecutive.rs
index 03d1a02..13c31bc 100644
--- a/contracts/src/token/erc721/extensions/consecutive.rs
+++ b/contracts/src/token/erc721/extensions/consecutive.rs
@@ -313,6 +313,10 @@ impl Erc721Consecutive {
     /// * [`Error::ExceededMaxBatchMint`] - If `batch_size` exceeds
     ///   `max_batch_size` of the contract.
     ///
+    /// # Panics
+    ///
+    /// * If the batch would need a token id greater than `U96::MAX`.
+    ///
     /// # Events
     ///
     /// * [`ConsecutiveTransfer`].
@@ -341,7 +345,9 @@ impl Erc721Consecutive {
             }
 
             // Push an ownership checkpoint & emit event.
-            let last = next + batch_size - uint!(1_U96);
+            let last = next
+                .checked_add(batch_size - uint!(1_U96))
+                .expect("consecutive token ids should not exceed `U96::MAX`");
             self.sequential_ownership.push(last, to.into())?;
 
             // The invariant required by this function is preserved because the
@@ -394,7 +400,10 @@ impl Erc721Consecutive {
         // if we burn
         if to.is_zero()
             // and the token_id was minted in a batch
-            && token_id < U256::from(self._next_consecutive_id())
+            && self
+                .sequential_ownership
+                .latest_checkpoint()
+                .is_some_and(|(latest_id, _)| token_id <= U256::from(latest_id))
             // and the token was never marked as burnt
             && !self.sequential_burn.get(token_id)
         {
@@ -415,7 +424,9 @@ impl Erc721Consecutive {
     fn _next_consecutive_id(&self) -> U96 {
         match self.sequential_ownership.latest_checkpoint() {
             None => self._first_consecutive_id(),
-            Some((latest_id, _)) => latest_id + uint!(1_U96),
+            Some((latest_id, _)) => latest_id
+                .checked_add(uint!(1_U96))
+                .expect("consecutive token ids should not exceed `U96::MAX`"),
         }
     }
 
-- 
2.43.0


From 7cedaf1562addce0f2e8ce1af80c3920822ec1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:55 +0000
Subject: [PATCH 5/9] fix: reject an ERC-1155 batch mint whose sum exceeds the
 total supply

---
 contracts/src/token/erc1155/extensions/supply.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/contracts/src/token/erc1155/extensions/supply.rs b/contracts/src/token/erc1155/extensions/supply.rs
index f0323f5..d8e161b 100644
--- a/contracts/src/token/erc1155/extensions/supply.rs
+++ b/contracts/src/token/erc1155/extensions/supply.rs
@@ -257,7 +257,10 @@ impl Erc1155Supply {
                 );
             }
 
-            let total_mint_value = values.iter().sum();
+            let total_mint_value = values
+                .iter()
+                .try_fold(U256::ZERO, |sum, &value| sum.checked_add(value))
+                .expect("should not exceed `U256::MAX` for `total_supply_all`");
             self.total_supply_all.add_assign_checked(
                 total_mint_value,
                 "should not exceed `U256::MAX` for `total_supply_all`",
-- 
2.43.0


From 6f55a66ecd659173feb83e9ee61f796f465bc980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:50 +0000
Subject: [PATCH 6/9] fix: refuse a vesting balance that shrank below the
 released amount

---
 contracts/src/finance/vesting_wallet.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/contracts/src/finance/vesting_wallet.rs b/contracts/src/finance/vesting_wallet.rs
index 9379e92..3b74673 100644
--- a/contracts/src/finance/vesting_wallet.rs
+++ b/contracts/src/finance/vesting_wallet.rs
@@ -394,7 +394,9 @@ impl IVestingWallet for VestingWallet {
     fn releasable_eth(&self) -> U256 {
         // SAFETY: total vested amount is by definition greater than or equal to
         // the released amount.
-        self.vested_amount_eth(block::timestamp()) - self.released_eth()
+        self.vested_amount_eth(block::timestamp())
+            .checked_sub(self.released_eth())
+            .expect("released amount should not exceed vested amount")
     }
 
     #[selector(name = "releasable")]
@@ -405,7 +407,9 @@ impl IVestingWallet for VestingWallet {
         let vested = self.vested_amount_erc20(token, block::timestamp())?;
         // SAFETY: total vested amount is by definition greater than or equal to
         // the released amount.
-        Ok(vested - self.released_erc20(token))
+        Ok(vested
+            .checked_sub(self.released_erc20(token))
+            .expect("released amount should not exceed vested amount"))
     }
 
     #[selector(name = "release")]
-- 
2.43.0


From c53b88142aa84d626f11ccf76ecaecde650625e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:30 +0000
Subject: [PATCH 7/9] fix: WideUint::ct_rem underflows on a zero dividend

---
 lib/crypto/src/arithmetic/uint.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/crypto/src/arithmetic/uint.rs b/lib/crypto/src/arithmetic/uint.rs
index afe6984..a1c8aee 100644
--- a/lib/crypto/src/arithmetic/uint.rs
+++ b/lib/crypto/src/arithmetic/uint.rs
@@ -839,8 +839,14 @@ impl<const N: usize> WideUint<N> {
 
         let mut remainder = Uint::<N>::ZERO;
 
+        // Zero has no bits to start with.
+        let num_bits = self.ct_num_bits();
+        if num_bits == 0 {
+            return remainder;
+        }
+
         // Start with the last bit.
-        let mut index = self.ct_num_bits() - 1;
+        let mut index = num_bits - 1;
         loop {
             // Shift the remainder to the left by 1,
             let (result, carry) = remainder.ct_checked_mul2();
-- 
2.43.0


From 5fe0715e0abe7b112943a26353f5c96b6320d170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:10 +0000
Subject: [PATCH 8/9] fix: MODULUS_BIT_SIZE is the size of the modulus, not of
 its storage

---
 lib/crypto/src/field/fp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/crypto/src/field/fp.rs b/lib/crypto/src/field/fp.rs
index 1332a9d..246ea87 100644
--- a/lib/crypto/src/field/fp.rs
+++ b/lib/crypto/src/field/fp.rs
@@ -555,7 +555,7 @@ impl<P: FpParams<N>, const N: usize> PrimeField for Fp<P, N> {
     type BigInt = Uint<N>;
 
     const MODULUS: Self::BigInt = P::MODULUS;
-    const MODULUS_BIT_SIZE: usize = <Uint<N> as BigInteger>::BITS;
+    const MODULUS_BIT_SIZE: usize = P::MODULUS.ct_num_bits();
 
     #[inline]
     fn from_bigint(repr: Self::BigInt) -> Self {
-- 
2.43.0


From 3556a47fe7e12eb579e360d27c01d5b63538032d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:11 +0000
Subject: [PATCH 9/9] fix: let contracts expose Erc721Wrapper::_recover

It is documented as a function that can be exposed with access control, but
was private, so underlying tokens sent by mistake could not be recovered.
---
 contracts/src/token/erc721/extensions/wrapper.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contracts/src/token/erc721/extensions/wrapper.rs b/contracts/src/token/erc721/extensions/wrapper.rs
index 5ba15e6..5ecd55f 100644
--- a/contracts/src/token/erc721/extensions/wrapper.rs
+++ b/contracts/src/token/erc721/extensions/wrapper.rs
@@ -263,7 +263,7 @@ impl Erc721Wrapper {
     /// * [`Error::Erc721IncorrectOwner`] - If the underlying token is not owned
     ///   by the contract.
     /// * [`Error::Erc721`] - If an error occurs during [`Erc721::_safe_mint`].
-    fn _recover(
+    pub fn _recover(
         &mut self,
         account: Address,
         token_id: U256,
-- 
2.43.0

