From c027fdb4c05dcc408bf926f9260249d8a9d81cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:14 +0000
Subject: [PATCH 01/48] fix: encode the transaction version as a plain integer
 in its JSON form

The version was left as a TransactionVersion object, so every transaction
submitted to a real explorer failed to be JSON encoded.
---
 tfchain/types/transactions/Base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tfchain/types/transactions/Base.py b/tfchain/types/transactions/Base.py
index 01230d6..df339b7 100644
--- a/tfchain/types/transactions/Base.py
+++ b/tfchain/types/transactions/Base.py
@@ -195,7 +195,7 @@ class TransactionBaseClass(ABC):
         pass
 
     def json(self):
-        obj = {'version': self.version}
+        obj = {'version': int(self.version)}
         data = self._json_data_object()
         if data:
             obj['data'] = data
-- 
2.43.0


From f8d4f080f64a29ee97ad1498349fa8fb81a2c044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:15 +0000
Subject: [PATCH 02/48] fix: keep the unused keys that precede a used key when
 scanning for keys

The slice dropped one unused key too many (and all of them when the last
scanned key was used), so those keys could never be handed out again.
---
 tfchain/TFChainWallet.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index 8c6af85..e86d38d 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -289,7 +289,9 @@ class TFChainWallet:
                 else:
                     self._unused_key_pairs.append(pair)
             # remove the unused pairs that came after the last known index
-            self._unused_key_pairs = self._unused_key_pairs[:-count+last_index]
+            trailing = count - 1 - last_index
+            if trailing > 0:
+                self._unused_key_pairs = self._unused_key_pairs[:-trailing]
             # update the new key count
             self._key_count += last_index + 1
 
-- 
2.43.0


From 5d2e28bfdb8f87225ff7b8670b88c6468f3d671d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:17 +0000
Subject: [PATCH 03/48] fix: merge multisig wallet balances

Merging two balances of the same multisig wallet called a method that does
not exist, compared against a misspelled attribute and dropped the other
balance, which crashed any wallet with two co-owner addresses.
---
 tfchain/TFChainWallet.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index e86d38d..248f4f5 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -2182,10 +2182,10 @@ class MultiSigWalletBalance(WalletBalance):
             return self
         if not isinstance(other, MultiSigWalletBalance):
             if isinstance(other, (WalletBalance, WalletsBalance)):
-                return WalletsBalance().balance_add(self).balance_add(self)
+                return WalletsBalance().balance_add(self).balance_add(other)
             # can only merge 2 multi-signature wallet balances
             raise TypeError("other balance has to be of type multi-signature wallet balance")
-        if self.address != other.addres:
+        if self.address != other.address:
             raise ValueError("other balance is for a different MultiSignature Wallet, cannot be merged")
         # piggy-back on the super class for the actual merge logic
         return super().balance_add(other._base)
@@ -2275,9 +2275,10 @@ class WalletsBalance(WalletBalance):
         Assign or merge a multi-sig wallet balance
         """
         if address not in self._wallets:
-            self._wallets[address] = balance
-            return
-        self._wallets[address] = self._wallets[address].merge(balance)
+            # start from an empty balance, such that the given balance is never modified
+            self._wallets[address] = MultiSigWalletBalance(
+                owners=balance._owners, signature_count=balance.signature_count)
+        self._wallets[address] = self._wallets[address].balance_add(balance)
 
     def __repr__(self):
         result = super().__repr__()
-- 
2.43.0


From c065ad5362fc00a0093d13fdae81a7d8f2599874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:18 +0000
Subject: [PATCH 04/48] fix: classify every output exactly once when adding
 outputs and merging balances

An output known to be spent by one balance stayed available after merging
it with a balance that saw it unspent, and a confirmed output reported as
unconfirmed afterwards was counted twice.
---
 tfchain/TFChainWallet.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index 248f4f5..a0f3242 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -2002,7 +2002,7 @@ class WalletBalance(object):
                 # delete from other output lists if prior registered
                 self._outputs_unconfirmed.pop(output.id, None)
                 self._outputs.pop(output.id, None)
-            elif output.id not in self._outputs_unconfirmed_spent:
+            elif output.id not in self._outputs_unconfirmed_spent and output.id not in self._outputs:
                 self._outputs_unconfirmed[output.id] = output
         self._addresses.add(str(output.condition.unlockhash))
 
@@ -2047,11 +2047,12 @@ class WalletBalance(object):
             self.chain_time = other.chain_time
             self.chain_height = other.chain_height
             self.chain_blockid = other.chain_blockid
-        # merge the outputs
-        for attr in ['_outputs', '_outputs_spent', '_outputs_unconfirmed', '_outputs_unconfirmed_spent']:
-            d = getattr(self, attr, {})
-            for id, output in getattr(other, attr, {}).items():
-                d[id] = output
+        # merge the outputs, classifying each output according to what is known by both balances
+        for attr, confirmed, spent in [
+                ('_outputs', True, False), ('_outputs_spent', True, True),
+                ('_outputs_unconfirmed', False, False), ('_outputs_unconfirmed_spent', False, True)]:
+            for output in getattr(other, attr).values():
+                WalletBalance.output_add(self, output, confirmed=confirmed, spent=spent)
         # merge the addresses
         self._addresses |= other._addresses
         # return the modified self
-- 
2.43.0


From 38967b87e679e09d9eb9179820976c639fa026be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:51 +0000
Subject: [PATCH 05/48] fix: do not reset a multisig balance when it has a
 minter definition

A minter definition linked to a multisig address threw away every output
collected so far (or crashed if the new minter is not a multisig wallet).
---
 tfchain/TFChainClient.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tfchain/TFChainClient.py b/tfchain/TFChainClient.py
index daf9399..d1a09a3 100644
--- a/tfchain/TFChainClient.py
+++ b/tfchain/TFChainClient.py
@@ -562,8 +562,9 @@ class ExplorerUnlockhashResult():
                         balance = MultiSigWalletBalance(owners=oc.unlockhashes, signature_count=oc.required_signatures)
                     balance.output_add(co, confirmed=(not txn.unconfirmed), spent=False)
             if isinstance(txn, TransactionV128):
-                oc = txn.mint_condition
-                balance = MultiSigWalletBalance(owners=oc.unlockhashes, signature_count=oc.required_signatures)
+                oc = txn.mint_condition.unwrap()
+                if balance is None and isinstance(oc, ConditionMultiSignature) and str(oc.unlockhash) == address:
+                    balance = MultiSigWalletBalance(owners=oc.unlockhashes, signature_count=oc.required_signatures)
         if balance is None:
             return WalletBalance() # return empty balance
         return balance
-- 
2.43.0


From 96603a2cbb9ec111715e0dc5ad42be13adfa131f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:53 +0000
Subject: [PATCH 06/48] fix: keep the coin output identifier of an ERC20 coin
 creation

Each access created a new output, so the identifier reported by the
explorer was lost and such outputs could never be spent.
---
 tfchain/types/transactions/ERC20.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tfchain/types/transactions/ERC20.py b/tfchain/types/transactions/ERC20.py
index 0a2195d..a813c6d 100644
--- a/tfchain/types/transactions/ERC20.py
+++ b/tfchain/types/transactions/ERC20.py
@@ -236,6 +236,7 @@ class TransactionV209(TransactionBaseClass):
         self._transaction_fee = None
         self._blockid = None
         self._transactionid = None
+        self._coin_output = CoinOutput()
 
         super().__init__()
 
@@ -322,8 +323,10 @@ class TransactionV209(TransactionBaseClass):
         """
         A singleton, containing the ERC20-converted TFT coins.
         """
-        condition = ConditionUnlockHash(unlockhash=self.address)
-        return [CoinOutput(value=self.value, condition=condition, id=None)]
+        # always the same instance, such that an identifier assigned to it is kept
+        self._coin_output.value = self.value
+        self._coin_output.condition = ConditionUnlockHash(unlockhash=self.address)
+        return [self._coin_output]
 
     def _signature_hash_input_get(self, *extra_objects):
         e = encoder_sia_get()
-- 
2.43.0


From 69dd140b4cff5223d6c8b890c3426508a1dcf6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:54 +0000
Subject: [PATCH 07/48] fix: support time-locked multisig outputs in a wallets
 balance

---
 tfchain/TFChainWallet.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index a0f3242..9696412 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -2230,8 +2230,8 @@ class WalletsBalance(WalletBalance):
             raise TypeError("multi signature's output condition cannot be of type {} (expected: ConditionMultiSignature)".format(type(oc)))
         if not address in self._wallets:
             self._wallets[address] = MultiSigWalletBalance(
-                owners=output.condition.unlockhashes,
-                signature_count=output.condition.required_signatures)
+                owners=oc.unlockhashes,
+                signature_count=oc.required_signatures)
         self._wallets[address].output_add(output, confirmed=confirmed, spent=spent)
 
     def output_add(self, output, confirmed=True, spent=False):
-- 
2.43.0


From e8fd950226c1fe5c828fce2b35551bb1448f890c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:36 +0000
Subject: [PATCH 08/48] fix: report invalid currency values and subtract a
 currency from a number

Rejecting a too precise or negative value failed with a NameError, and
subtracting a currency from a number computed the opposite difference.
---
 tfchain/errors.py               | 2 +-
 tfchain/types/PrimitiveTypes.py | 8 +++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/tfchain/errors.py b/tfchain/errors.py
index 68ab770..dc105e3 100644
--- a/tfchain/errors.py
+++ b/tfchain/errors.py
@@ -35,7 +35,7 @@ class CurrencyPrecisionOverflow(Exception):
         """
         The precision of the value that caused the overflow.
         """
-        _, _, exp = self.value
+        _, _, exp = self.value.as_tuple()
         return abs(exp)
 
     @property
diff --git a/tfchain/types/PrimitiveTypes.py b/tfchain/types/PrimitiveTypes.py
index d1e8c5b..e8a56f8 100644
--- a/tfchain/types/PrimitiveTypes.py
+++ b/tfchain/types/PrimitiveTypes.py
@@ -220,9 +220,9 @@ class Currency(BaseDataTypeClass):
             d = Decimal(value)
             sign, _, exp = d.as_tuple()
             if exp < -9:
-                raise errors.CurrencyPrecisionOverflow(d)
+                raise tfchain.errors.CurrencyPrecisionOverflow(d)
             if sign != 0:
-                raise errors.CurrencyNegativeValue(d)
+                raise tfchain.errors.CurrencyNegativeValue(d)
             self._value = d
             return
         raise TypeError(
@@ -257,7 +257,9 @@ class Currency(BaseDataTypeClass):
         other = Currency._op_other_as_currency(other)
         value = self.value - other.value
         return Currency(value=value)
-    __rsub__ = __sub__
+
+    def __rsub__(self, other):
+        return Currency._op_other_as_currency(other) - self
 
     def __isub__(self, other):
         other = Currency._op_other_as_currency(other)
-- 
2.43.0


From 6c2525c6ca6bb54e7659f43cbb5666fa9f071b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:38 +0000
Subject: [PATCH 09/48] fix: accept a list with a single string address as the
 source of funds

---
 tfchain/TFChainWallet.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index 9696412..a58108d 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -2322,10 +2322,11 @@ class WalletsBalance(WalletBalance):
                 else:
                     raise TypeError("cannot add source addres with unsupported UnlockHashType {}".format(value.type))
             if len(source) == 1:
-                if source[0].type == UnlockHashType.PUBLIC_KEY:
-                    refund = ConditionTypes.unlockhash_new(unlockhash=source[0])
+                # value is the only source address, normalized to an unlock hash
+                if value.type == UnlockHashType.PUBLIC_KEY:
+                    refund = ConditionTypes.unlockhash_new(unlockhash=value)
                 else:
-                    addr = str(source[0])
+                    addr = str(value)
                     if addr in self.wallets:
                         wallet = self.wallets[addr]
                         refund = ConditionTypes.multi_signature_new(min_nr_sig=wallet.signature_count, unlockhashes=wallet.owners)
-- 
2.43.0


From 220422b0a4d74249e78f16dec26c6de302252105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:39 +0000
Subject: [PATCH 10/48] fix: list the transactions of a wallet that has an
 unused address

One address without activity made the whole listing fail; hashing a
transaction without an identifier failed as well.
---
 tfchain/TFChainWallet.py           | 7 ++++++-
 tfchain/types/transactions/Base.py | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index a58108d..740c3c1 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -239,7 +239,12 @@ class TFChainWallet:
         # for each address get all transactions
         transactions = set()
         for address in self.addresses:
-            result = self._unlockhash_get(address)
+            try:
+                result = self._unlockhash_get(address)
+            except tfchain.errors.ExplorerNoContent:
+                # ignore this exception as it simply means
+                # the address has no activity yet on the chain
+                continue
             transactions.update(result.transactions)
 
         # sort all transactions
diff --git a/tfchain/types/transactions/Base.py b/tfchain/types/transactions/Base.py
index df339b7..5f2cfe5 100644
--- a/tfchain/types/transactions/Base.py
+++ b/tfchain/types/transactions/Base.py
@@ -1,5 +1,5 @@
 import json
-from tfchain.internal.jsutils import blake2_string
+from tfchain.internal.jsutils import blake2_string, json_dumps
 from tfchain.encoders import encoder_rivine_get, encoder_sia_get, BaseRivineObjectEncoder, BaseSiaObjectEncoder
 from functools import reduce
 from abc import ABC, abstractmethod, abstractclassmethod
-- 
2.43.0


From 080474145c22d6d1c7854427d0145ae38d1215a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:55 +0000
Subject: [PATCH 11/48] fix: never sign or submit for a blockstake input whose
 parent is unknown

An unknown parent output was taken for a free-for-all output, so the wallet
signed blockstake inputs it does not own with its primary key, and such
inputs were ignored when deciding if the transaction is fully signed.
Blockstake output identifiers were bound by the amount of coin outputs.
---
 tfchain/types/IO.py                | 4 ++--
 tfchain/types/transactions/Base.py | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/tfchain/types/IO.py b/tfchain/types/IO.py
index f6eb276..564685d 100644
--- a/tfchain/types/IO.py
+++ b/tfchain/types/IO.py
@@ -250,12 +250,12 @@ class BlockstakeInput(BaseDataTypeClass):
 
     @property
     def parent_output(self):
-        return self._parent_output
+        return self._parent_output or BlockstakeOutput()
 
     @parent_output.setter
     def parent_output(self, value):
         if value is None:
-            self._parent_output = BlockstakeOutput()
+            self._parent_output = None
             return
         if not isinstance(value, BlockstakeOutput):
             raise TypeError(
diff --git a/tfchain/types/transactions/Base.py b/tfchain/types/transactions/Base.py
index 5f2cfe5..d1e995a 100644
--- a/tfchain/types/transactions/Base.py
+++ b/tfchain/types/transactions/Base.py
@@ -226,10 +226,10 @@ class TransactionBaseClass(ABC):
 
     def blockstake_outputid_new(self, index):
         """
-        Compute the ID of a Coin Output within this transaction.
+        Compute the ID of a Blockstake Output within this transaction.
         """
-        if index < 0 or index >= len(self.coin_outputs):
-            raise ValueError("coin output index is out of range")
+        if index < 0 or index >= len(self.blockstake_outputs):
+            raise ValueError("blockstake output index is out of range")
         return self._outputid_new(specifier=self._blockstake_outputid_specifier, index=index)
 
     def _outputid_new(self, specifier, index):
@@ -297,7 +297,7 @@ class TransactionBaseClass(ABC):
         """
         return reduce(
             (lambda r, ci: r and ci.is_fulfilled()),
-            self.coin_inputs, self._extra_is_fulfilled())
+            list(self.coin_inputs) + list(self.blockstake_inputs), self._extra_is_fulfilled())
 
     def _extra_is_fulfilled(self):
         """
-- 
2.43.0


From 3c7c0b982b3b95c912c15824b754cfa558638f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:26 +0000
Subject: [PATCH 12/48] fix: do not take an empty signature for a signature,
 encode 3Bot and ERC20 registration signatures as slices

An unsigned transaction decoded from its JSON form was considered to be
signed, so it could not be handed over for signing. The signatures of the
bot record update, bot name transfer and ERC20 address registration
transactions got another binary encoding when set by the wallet than when
decoded from JSON, giving wrong transaction and output identifiers.
---
 tfchain/types/FulfillmentTypes.py      |  6 ++++--
 tfchain/types/transactions/ERC20.py    |  6 +++---
 tfchain/types/transactions/ThreeBot.py | 27 ++++++++++++++------------
 3 files changed, 22 insertions(+), 17 deletions(-)

diff --git a/tfchain/types/FulfillmentTypes.py b/tfchain/types/FulfillmentTypes.py
index 427be76..5f5f9ce 100644
--- a/tfchain/types/FulfillmentTypes.py
+++ b/tfchain/types/FulfillmentTypes.py
@@ -284,7 +284,8 @@ class FulfillmentSingleSignature(FulfillmentBaseClass):
     
     def from_json_data_object(self, data):
         self._pub_key = PublicKey.from_json(data['publickey'])
-        self._signature = ED25519Signature.from_json(data['signature'])
+        # an empty signature is the JSON form of a signature that is still missing
+        self.signature = ED25519Signature.from_json(data['signature']) if data['signature'] else None
 
     def json_data_object(self):
         return {
@@ -527,7 +528,8 @@ class FulfillmentAtomicSwap(FulfillmentBaseClass):
 
     def from_json_data_object(self, data):
         self._pub_key = PublicKey.from_json(data['publickey'])
-        self._signature = ED25519Signature.from_json(data['signature'])
+        # an empty signature is the JSON form of a signature that is still missing
+        self.signature = ED25519Signature.from_json(data['signature']) if data['signature'] else None
         self._secret = None
         if 'secret' in data:
             self._secret = AtomicSwapSecret.from_json(data['secret'])
diff --git a/tfchain/types/transactions/ERC20.py b/tfchain/types/transactions/ERC20.py
index a813c6d..29e1278 100644
--- a/tfchain/types/transactions/ERC20.py
+++ b/tfchain/types/transactions/ERC20.py
@@ -449,7 +449,7 @@ class TransactionV210(TransactionBaseClass, SignatureCallbackBase):
     @property
     def signature(self):
         if self._signature is None:
-            return ED25519Signature(as_array=True)
+            return ED25519Signature()
         return self._signature
 
     @signature.setter
@@ -457,7 +457,7 @@ class TransactionV210(TransactionBaseClass, SignatureCallbackBase):
         if value is None:
             self._signature = None
             return
-        self._signature = ED25519Signature(value=value, as_array=True)
+        self._signature = ED25519Signature(value=value)
 
     @property
     def coin_inputs(self):
@@ -627,7 +627,7 @@ class TransactionV210(TransactionBaseClass, SignatureCallbackBase):
             self._public_key = None
         # decode signature
         if 'signature' in data:
-            self._signature = ED25519Signature.from_json(data['signature'])
+            self.signature = ED25519Signature.from_json(data['signature']) if data['signature'] else None
         else:
             self._signature = None
         # decode registration fee
diff --git a/tfchain/types/transactions/ThreeBot.py b/tfchain/types/transactions/ThreeBot.py
index 2fe1265..60ac61f 100644
--- a/tfchain/types/transactions/ThreeBot.py
+++ b/tfchain/types/transactions/ThreeBot.py
@@ -398,7 +398,7 @@ class TransactionV144(BotTransactionBaseClass):
         else:
             identification = data['identification']
             self._public_key = PublicKey.from_json(identification['publickey'])
-            self._signature = ED25519Signature.from_json(identification['signature'], as_array=True)
+            self.signature = ED25519Signature.from_json(identification['signature']) if identification['signature'] else None
 
     def _json_data_object(self):
         output = {
@@ -406,8 +406,8 @@ class TransactionV144(BotTransactionBaseClass):
             'txfee': self.transaction_fee.json(),
             'coininputs': [ci.json() for ci in self.coin_inputs],
             'identification': {
-                'publickey': self._public_key.json(),
-                'signature': self._signature.json(),
+                'publickey': self.public_key.json(),
+                'signature': self.signature.json(),
             },
         }
         addresses = self.addresses
@@ -676,14 +676,14 @@ class TransactionV145(BotTransactionBaseClass):
     @property
     def signature(self):
         if self._signature is None:
-            return ED25519Signature(as_array=True)
+            return ED25519Signature()
         return self._signature
     @signature.setter
     def signature(self, value):
         if value is None:
             self._signature = None
             return
-        self._signature = ED25519Signature(value=value, as_array=True)
+        self._signature = ED25519Signature(value=value)
 
     @property
     def parent_public_key(self):
@@ -818,7 +818,8 @@ class TransactionV145(BotTransactionBaseClass):
             self._refund_coin_output = CoinOutput.from_json(data['refundcoinoutput'])
         else:
             self._refund_coin_output = None
-        self._signature = ED25519Signature.from_json(data.get('signature', None) or None)
+        signature = data.get('signature', None)
+        self.signature = ED25519Signature.from_json(signature) if signature else None
 
     def _json_data_object(self):
         output = {
@@ -1042,26 +1043,26 @@ class TransactionV146(BotTransactionBaseClass):
     @property
     def sender_signature(self):
         if self._sender_signature is None:
-            return ED25519Signature(as_array=True)
+            return ED25519Signature()
         return self._sender_signature
     @sender_signature.setter
     def sender_signature(self, value):
         if value is None:
             self._sender_signature = None
             return
-        self._sender_signature = ED25519Signature(value=value, as_array=True)
+        self._sender_signature = ED25519Signature(value=value)
 
     @property
     def receiver_signature(self):
         if self._receiver_signature is None:
-            return ED25519Signature(as_array=True)
+            return ED25519Signature()
         return self._receiver_signature
     @receiver_signature.setter
     def receiver_signature(self, value):
         if value is None:
             self._receiver_signature = None
             return
-        self._receiver_signature = ED25519Signature(value=value, as_array=True)
+        self._receiver_signature = ED25519Signature(value=value)
 
     @property
     def sender_parent_public_key(self):
@@ -1187,7 +1188,8 @@ class TransactionV146(BotTransactionBaseClass):
         if 'sender' in data:
             bot_data = data['sender']
             self._sender_botid = int(bot_data.get('id', 0) or 0)
-            self._sender_signature = ED25519Signature.from_json(bot_data.get('signature', None) or None)
+            signature = bot_data.get('signature', None)
+            self.sender_signature = ED25519Signature.from_json(signature) if signature else None
         else:
             self._sender_botid = None
             self._sender_signature = None
@@ -1195,7 +1197,8 @@ class TransactionV146(BotTransactionBaseClass):
         if 'receiver' in data:
             bot_data = data['receiver']
             self._receiver_botid = int(bot_data.get('id', 0) or 0)
-            self._receiver_signature = ED25519Signature.from_json(bot_data.get('signature', None) or None)
+            signature = bot_data.get('signature', None)
+            self.receiver_signature = ED25519Signature.from_json(signature) if signature else None
         else:
             self._receiver_botid = None
             self._receiver_signature = None
-- 
2.43.0


From 5bebcbe660444d817018aa13a15d0522d5130511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:20 +0000
Subject: [PATCH 13/48] fix: prefix an encoded string with its length in bytes

---
 tfchain/encoders/rivine.py | 3 ++-
 tfchain/encoders/sia.py    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/tfchain/encoders/rivine.py b/tfchain/encoders/rivine.py
index e7835f6..f2f496e 100644
--- a/tfchain/encoders/rivine.py
+++ b/tfchain/encoders/rivine.py
@@ -170,8 +170,9 @@ class RivineBinaryEncoder:
         @param value: the iterateble object to be rivbin-encoded as a slice
         """
         if isinstance(value, str):
+            value = value.encode('utf-8')
             self._add_slice_length(len(value))
-            self._data += value.encode('utf-8')
+            self._data += value
         elif isinstance(value, (bytes, bytearray)):
             self._add_slice_length(len(value))
             self._data += value
diff --git a/tfchain/encoders/sia.py b/tfchain/encoders/sia.py
index 5236170..0eaae5d 100644
--- a/tfchain/encoders/sia.py
+++ b/tfchain/encoders/sia.py
@@ -85,8 +85,9 @@ class SiaBinaryEncoder:
         @param value: the iterateble object to be siabin-encoded as a slice
         """
         if isinstance(value, str):
+            value = value.encode('utf-8')
             self.add_int(len(value))
-            self._data += value.encode('utf-8')
+            self._data += value
         elif isinstance(value, (bytes, bytearray)):
             self.add_int(len(value))
             self._data += value
-- 
2.43.0


From 795d3c57da05214c53a2b86002d47eb045be7db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:58 +0000
Subject: [PATCH 14/48] fix: encode the hash of a nil address as zero bytes and
 verify its checksum

A new nil address left its hash out of the binary encoding, and was not
equal to the same nil address decoded from its text form.
---
 tfchain/types/ConditionTypes.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/tfchain/types/ConditionTypes.py b/tfchain/types/ConditionTypes.py
index 2943215..d38562e 100644
--- a/tfchain/types/ConditionTypes.py
+++ b/tfchain/types/ConditionTypes.py
@@ -322,11 +322,10 @@ class UnlockHash(BaseDataTypeClass):
             expectedNH = b'\x00'*UnlockHash._HASH_SIZE
             if h.value != expectedNH:
                 raise ValueError("unexpected nil hash {}".format(h.value.hex()))
-        else:
-            expected_checksum = uh._checksum()[:UnlockHash._CHECKSUM_SIZE].hex()
-            checksum = obj[-UnlockHash._CHECKSUM_SIZE_HEX:]
-            if expected_checksum != checksum:
-                raise ValueError("unexpected checksum {}, expected {}".format(checksum, expected_checksum))
+        expected_checksum = uh._checksum()[:UnlockHash._CHECKSUM_SIZE].hex()
+        checksum = obj[-UnlockHash._CHECKSUM_SIZE_HEX:]
+        if expected_checksum != checksum:
+            raise ValueError("unexpected checksum {}, expected {}".format(checksum, expected_checksum))
 
         return uh
     
@@ -346,7 +345,8 @@ class UnlockHash(BaseDataTypeClass):
         return self._hash
     @hash.setter
     def hash(self, value):
-        self._hash.value = value
+        # a nil hash is a hash of zero bytes
+        self._hash.value = value if value is not None else bytes(UnlockHash._HASH_SIZE)
 
     def __str__(self):
         checksum = self._checksum()[:UnlockHash._CHECKSUM_SIZE].hex()
-- 
2.43.0


From 9b4bb298b41bf643953884ff597ee653b46543cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:12 +0000
Subject: [PATCH 15/48] fix: only request the signature of the party that can
 spend an atomic swap contract

A refund by a wallet that owns both the sender and receiver address
ended up signed by the receiver, which the network refuses.
---
 tfchain/types/FulfillmentTypes.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/tfchain/types/FulfillmentTypes.py b/tfchain/types/FulfillmentTypes.py
index 5f5f9ce..26abc11 100644
--- a/tfchain/types/FulfillmentTypes.py
+++ b/tfchain/types/FulfillmentTypes.py
@@ -562,10 +562,11 @@ class FulfillmentAtomicSwap(FulfillmentBaseClass):
             if self._secret is not None:
                 return input_hash_func(public_key, self.secret)
             return input_hash_func(public_key)
-        # create a signature hash for all signees that haven't signed yet
-        for unlockhash in [parent_condition.sender, parent_condition.receiver]:
-            if str(unlockhash) != signee:
-                requests.append(SignatureRequest(unlockhash=unlockhash, input_hash_gen=input_hash_gen, callback=self))
+        # create a signature request for the only possible signee, if it hasn't signed yet:
+        # the receiver redeems using the secret, the sender refunds without it
+        unlockhash = parent_condition.sender if self._secret is None else parent_condition.receiver
+        if str(unlockhash) != signee:
+            requests.append(SignatureRequest(unlockhash=unlockhash, input_hash_gen=input_hash_gen, callback=self))
         return requests
 
     def is_fulfilled(self, parent_condition):
-- 
2.43.0


From 8f829a22885e174435f3039b5a949f8e50b2a123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:25 +0000
Subject: [PATCH 16/48] fix: replace the names of a 3Bot name transfer, copy
 3Bot names and addresses

Assigning names to a 3Bot name transfer added to the existing names,
copying a 3Bot name or IP address raised an AttributeError, and a name or
hostname with a trailing newline was accepted.
---
 tfchain/types/ThreeBot.py              | 8 ++++----
 tfchain/types/transactions/ERC20.py    | 2 +-
 tfchain/types/transactions/ThreeBot.py | 4 ++--
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/tfchain/types/ThreeBot.py b/tfchain/types/ThreeBot.py
index 82f69e8..49f05d0 100644
--- a/tfchain/types/ThreeBot.py
+++ b/tfchain/types/ThreeBot.py
@@ -145,7 +145,7 @@ class NetworkAddress(BaseDataTypeClass):
         if value is None:
             self._type = NetworkAddress.Type.HOSTNAME
             self._address = bytearray()
-        elif isinstance(value, str) and NetworkAddress.HOSTNAME_REGEXP.match(value):
+        elif isinstance(value, str) and NetworkAddress.HOSTNAME_REGEXP.fullmatch(value):
             addr = bytearray()
             if len(value) > NetworkAddress.HOSTNAME_LENGTH_MAX:
                 raise ValueError("the length of a hostname can maximum be {} bytes long".format(
@@ -172,7 +172,7 @@ class NetworkAddress(BaseDataTypeClass):
                 raise ValueError(
                     "invalid network address '{}' (type: {})".format(value, type(value)))
         elif isinstance(value, NetworkAddress):
-            self._address = value._address.copy()
+            self._address = bytearray(value._address)
             self._type = value._type
         else:
             raise TypeError(
@@ -251,11 +251,11 @@ class BotName(BaseDataTypeClass):
             if len(value) > BotName.LENGTH_MAX:
                 raise ValueError("the length of a botname can maximum be {} characters long".format(
                     BotName.LENGTH_MAX))
-            if BotName.REGEXP.match(value) is None:
+            if BotName.REGEXP.fullmatch(value) is None:
                 raise ValueError("bot name '{}' is not valid".format(value))
             self._value = value
         elif isinstance(value, BotName):
-            self._value = value._value.copy()
+            self._value = value._value
         else:
             raise TypeError(
                 "bot name cannot be assigned a value of type {}".format(type(value)))
diff --git a/tfchain/types/transactions/ERC20.py b/tfchain/types/transactions/ERC20.py
index 29e1278..cb2bafd 100644
--- a/tfchain/types/transactions/ERC20.py
+++ b/tfchain/types/transactions/ERC20.py
@@ -420,7 +420,7 @@ class TransactionV210(TransactionBaseClass, SignatureCallbackBase):
         self._registration_fee = Currency(
             value=TransactionV210.HARDCODED_REGISTRATION_FEE)
         self._transaction_fee = None
-        self._coin_inputs = None
+        self._coin_inputs = []
         self._refund_coin_output = None
 
         super().__init__()
diff --git a/tfchain/types/transactions/ThreeBot.py b/tfchain/types/transactions/ThreeBot.py
index 60ac61f..f94560f 100644
--- a/tfchain/types/transactions/ThreeBot.py
+++ b/tfchain/types/transactions/ThreeBot.py
@@ -890,7 +890,7 @@ class TransactionV146(BotTransactionBaseClass):
         self._receiver_botid = None
         self._names = []
         self._transaction_fee = None
-        self._coin_inputs = None
+        self._coin_inputs = []
         self._refund_coin_output = None
         self._sender_signature = None
         self._receiver_signature = None
@@ -1007,7 +1007,7 @@ class TransactionV146(BotTransactionBaseClass):
         return self._names
     @names.setter
     def names(self, value):
-        self._names_to_add = []
+        self._names = []
         if not value:
             return
         for name in value:
-- 
2.43.0


From 7abf1154285d59ad46df7017618a977b9cc34c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:51 +0000
Subject: [PATCH 17/48] fix: sign for a 3Bot when completing a JSON-encoded
 3Bot transaction

The public keys of the 3Bots are not part of the JSON form, so the
signature of the 3Bot could never be added by the next signer.
---
 tfchain/TFChainWallet.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index 740c3c1..559e0c9 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -19,6 +19,7 @@ from tfchain.types.AtomicSwap import AtomicSwapContract
 from tfchain.types.ERC20 import ERC20Address
 from tfchain.types.transactions.Base import TransactionBaseClass
 from tfchain.types.transactions.Minting import TransactionV128, TransactionV129
+from tfchain.types.transactions.ThreeBot import TransactionV145, TransactionV146
 
 _DEFAULT_KEY_SCAN_COUNT = 3
 
@@ -479,6 +480,13 @@ class TFChainWallet:
             # define the current fulfillment if it is not defined
             if not txn.mint_fulfillment_defined():
                 txn.mint_fulfillment = FulfillmentTypes.from_condition(txn.parent_mint_condition)
+        elif isinstance(txn, TransactionV145):
+            # set the public key of the 3Bot, as it is not part of the (JSON-encoded) transaction
+            txn.parent_public_key = self.client.threebot.record_get(txn.botid).public_key
+        elif isinstance(txn, TransactionV146):
+            # set the public keys of both 3Bots, as these are not part of the (JSON-encoded) transaction
+            txn.sender_parent_public_key = self.client.threebot.record_get(txn.sender_botid).public_key
+            txn.receiver_parent_public_key = self.client.threebot.record_get(txn.receiver_botid).public_key
 
         # generate the signature requests
         sig_requests = txn.signature_requests_new()
-- 
2.43.0


From b9ea27e74a8e44fdb09d74915bfe4789fee12809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:53 +0000
Subject: [PATCH 18/48] fix: tell the creation of an output apart from its
 spend by its identifier

The height is the same when both are part of one block, and zero for an
unconfirmed spend.
---
 tfchain/TFChainClient.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tfchain/TFChainClient.py b/tfchain/TFChainClient.py
index d1a09a3..11a1a7c 100644
--- a/tfchain/TFChainClient.py
+++ b/tfchain/TFChainClient.py
@@ -353,7 +353,9 @@ class TFChainClient:
             creation_txn = tresp[0]
             spend_txn = None
             if lresp == 2:
-                if tresp[1]['height'] > creation_txn['height']:
+                # the height does not tell the two apart when both are part of the same block or unconfirmed
+                ids_key = 'coinoutputids' if hash_type == 'coinoutputid' else 'blockstakeoutputids'
+                if id in (creation_txn.get(ids_key, None) or []):
                     spend_txn = tresp[1]
                 else:
                     spend_txn = creation_txn
-- 
2.43.0


From 365a4562a74fca970f8c2386bf941da2b02a99c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:01 +0000
Subject: [PATCH 19/48] fix: read the whole body of an explorer response, not
 only its first line

---
 tfchain/TFChainExplorerClient.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tfchain/TFChainExplorerClient.py b/tfchain/TFChainExplorerClient.py
index dcdf201..830e26f 100644
--- a/tfchain/TFChainExplorerClient.py
+++ b/tfchain/TFChainExplorerClient.py
@@ -45,7 +45,7 @@ class TFChainExplorerClient:
                 # do the request and check the response
                 resp = http.get(url=address+endpoint, headers=headers)
                 if resp.getcode() == 200:
-                    return resp.readline()
+                    return resp.read()
                 if resp.getcode() == 204:
                     raise tfchain.errors.ExplorerNoContent("GET: no content available (code: 204)", endpoint)
                 raise tfchain.errors.ExplorerServerError("error (code: {})".format(resp.getcode()), endpoint)
@@ -92,7 +92,7 @@ class TFChainExplorerClient:
                 # do the request and check the response
                 resp = http.post(url=address+endpoint, data=data, headers=headers)
                 if resp.getcode() == 200:
-                    return resp.readline()
+                    return resp.read()
                 raise tfchain.errors.ExplorerServerPostError("POST: unexpected error (code: {})".format(resp.getcode()), endpoint, data=data)
             except HTTPError as e:
                 if e.status_code:
-- 
2.43.0


From 7a7b8aa16603e4718be7d07d7477c72ffd42f919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:36 +0000
Subject: [PATCH 20/48] fix: drop the least valuable output when funding hits
 the input limit

Dropping the first collected output could drop the most valuable ones,
reporting insufficient funds for an amount that can be funded.
---
 tfchain/TFChainWallet.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index 559e0c9..6d54dcb 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -2428,8 +2428,8 @@ class WalletsBalance(WalletBalance):
                 collected += co.value
                 outputs.append(co)
                 if len(outputs) > _MAX_RIVINE_TRANSACTION_INPUTS:
-                    # to not reach the input limit
-                    collected -= outputs.pop(0).value
+                    # to not reach the input limit, drop the least valuable output
+                    collected -= outputs.pop(outputs.index(min(outputs, key=lambda co: co.value))).value
                 if collected >= amount:
                     return outputs, collected
 
@@ -2446,8 +2446,8 @@ class WalletsBalance(WalletBalance):
                 collected += co.value
                 outputs.append(co)
                 if len(outputs) > _MAX_RIVINE_TRANSACTION_INPUTS:
-                    # to not reach the input limit
-                    collected -= outputs.pop(0).value
+                    # to not reach the input limit, drop the least valuable output
+                    collected -= outputs.pop(outputs.index(min(outputs, key=lambda co: co.value))).value
                 if collected >= amount:
                     return outputs, collected
         # we return whatever we have collected, no matter if it is sufficient
-- 
2.43.0


From a2f3a7961a036c4c67ebee7be013633cddf8f073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:37 +0000
Subject: [PATCH 21/48] fix: skip outputs that do not cover the miner fee when
 draining a balance

---
 tfchain/TFChainWallet.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index 6d54dcb..f41a6f5 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -2104,15 +2104,19 @@ class WalletBalance(object):
             outputs += self.outputs_unconfirmed_available
         # drain all outputs
         while len(outputs) > 0:
-            txn = tftransactions.new()
-            txn.data = data
-            txn.miner_fee_add(miner_fee)
             # select maximum _MAX_RIVINE_TRANSACTION_INPUTS outputs
             n = min(len(outputs), _MAX_RIVINE_TRANSACTION_INPUTS)
             used_outputs = outputs[:n]
             outputs = outputs[n:] # and update our output list, so we do not double spend
-            # compute amount, minus minimum fee and add our only output
-            amount = sum([co.value for co in used_outputs]) - miner_fee
+            # compute amount, minus minimum fee
+            collected = sum([co.value for co in used_outputs])
+            if collected <= miner_fee:
+                continue # nothing would be left of these outputs
+            amount = collected - miner_fee
+            # create the transaction and add our only output
+            txn = tftransactions.new()
+            txn.data = data
+            txn.miner_fee_add(miner_fee)
             txn.coin_output_add(condition=recipient, value=amount)
             # add the coin inputs
             txn.coin_inputs = [CoinInput.from_coin_output(co) for co in used_outputs]
-- 
2.43.0


From 9615fd03fcdaefba1b0ba8c4fc9467b76ba77349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:47 +0000
Subject: [PATCH 22/48] fix: generate atomic swap secrets using a cryptographic
 source of randomness

---
 tfchain/internal/jsutils.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/tfchain/internal/jsutils.py b/tfchain/internal/jsutils.py
index 07c7ce9..234d242 100644
--- a/tfchain/internal/jsutils.py
+++ b/tfchain/internal/jsutils.py
@@ -1,4 +1,5 @@
 import re
+import os
 import random
 from datetime import datetime, timedelta
 import time
@@ -35,10 +36,8 @@ def generateXCharID(x):
 
 
 def generateXByteID(x):
-    out = bytearray()
-    for _ in range(0, x):
-        out.append(generateRandomInt(0, 255))
-    return out
+    # used for secrets, and thus has to be unpredictable
+    return bytearray(os.urandom(x))
 
 
 # TIME
-- 
2.43.0


From 21a46fdab343045fc8b22a7fe4ef40abc6aa8ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:22 +0000
Subject: [PATCH 23/48] fix: keep the most valuable outputs when unconfirmed
 outputs reach the input limit

---
 tfchain/TFChainWallet.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index f41a6f5..666d118 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -2405,8 +2405,8 @@ class WalletsBalance(WalletBalance):
             collected += co.value
             outputs.append(co)
             if len(outputs) > _MAX_RIVINE_TRANSACTION_INPUTS:
-                # to not reach the input limit
-                collected -= outputs.pop(0).value
+                # to not reach the input limit, drop the least valuable output
+                collected -= outputs.pop(outputs.index(min(outputs, key=lambda co: co.value))).value
             if collected >= amount:
                 return outputs, collected
 
-- 
2.43.0


From 9e7a91eef43ee4afc74c486612f8f4d153850d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:59 +0000
Subject: [PATCH 24/48] fix: do not use up a key when an ERC20 address
 registration cannot be funded

---
 tfchain/TFChainWallet.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index 666d118..51d5d06 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -1551,7 +1551,7 @@ class TFChainERC20():
         @param refund: optional refund address, by default is uses the source if it specifies a single address otherwise it uses the default wallet address (recipient type, with None being the exception in its interpretation)
         """
         if value is None:
-            public_key = self._wallet.public_key_new()
+            public_key = None # generated as soon as the transaction is funded
         elif isinstance(value, (str, UnlockHash)):
             try:
                 public_key = self._wallet.key_pair_get(unlockhash=value).public_key
@@ -1570,12 +1570,15 @@ class TFChainERC20():
 
         # create transaction
         txn = tftransactions.erc20_address_registration_new()
-        # define the public key
-        txn.public_key = public_key
 
         # fund the transaction
         balance = self._fund_txn(txn, source, refund, txn.registration_fee)
 
+        # define the public key
+        if public_key is None:
+            public_key = self._wallet.public_key_new()
+        txn.public_key = public_key
+
         # sign, submit and return the transaction
         return self._sign_and_submit_txn(txn, balance)
 
-- 
2.43.0


From ce5eccac30c3ecd43476fdbf8bd248c300895c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:51 +0000
Subject: [PATCH 25/48] fix: only signatures of the current minters make a
 minting transaction complete

When the minting condition changed between two signatures, those of former
minters still counted, and a transaction the chain rejects was submitted.
---
 tfchain/types/transactions/Minting.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/tfchain/types/transactions/Minting.py b/tfchain/types/transactions/Minting.py
index a2a9b88..eeef863 100644
--- a/tfchain/types/transactions/Minting.py
+++ b/tfchain/types/transactions/Minting.py
@@ -1,13 +1,27 @@
 from tfchain.types.transactions.Base import TransactionBaseClass, TransactionVersion
 
 from tfchain.types import FulfillmentTypes, ConditionTypes
-from tfchain.types.FulfillmentTypes import FulfillmentBaseClass, FulfillmentSingleSignature
-from tfchain.types.ConditionTypes import ConditionBaseClass, ConditionNil
+from tfchain.types.FulfillmentTypes import FulfillmentBaseClass, FulfillmentSingleSignature, FulfillmentMultiSignature
+from tfchain.types.ConditionTypes import ConditionBaseClass, ConditionNil, ConditionMultiSignature
 from tfchain.types.PrimitiveTypes import BinaryData, Currency
 from tfchain.types.IO import CoinInput, CoinOutput
 from tfchain.internal.jsutils import generateXByteID
 from tfchain.encoders import encoder_sia_get
 
+def _fulfilled_by_minters(fulfillment, condition):
+    """
+    Returns True if the fulfillment has all signatures the (current) mint condition requires.
+    As the mint condition can change in between two signatures, signatures of former minters do not count.
+    """
+    minters = condition.unwrap()
+    if isinstance(fulfillment, FulfillmentMultiSignature) and isinstance(minters, ConditionMultiSignature):
+        owners = [str(uh) for uh in minters.unlockhashes]
+        signed = [pair for pair in fulfillment.pairs if str(pair.public_key.unlockhash) in owners]
+        if len(signed) < minters.required_signatures:
+            return False
+    return fulfillment.is_fulfilled(parent_condition=condition)
+
+
 class TransactionV128(TransactionBaseClass):
     _SPECIFIER = b'minter defin tx\0'
 
@@ -197,7 +211,7 @@ class TransactionV128(TransactionBaseClass):
     def _extra_is_fulfilled(self):
         if self._parent_mint_condition is None:
             return False
-        return self.mint_fulfillment.is_fulfilled(parent_condition=self._parent_mint_condition)
+        return _fulfilled_by_minters(self.mint_fulfillment, self._parent_mint_condition)
 
 
 class TransactionV129(TransactionBaseClass):
@@ -391,4 +405,4 @@ class TransactionV129(TransactionBaseClass):
     def _extra_is_fulfilled(self):
         if self._parent_mint_condition is None:
             return False
-        return self.mint_fulfillment.is_fulfilled(parent_condition=self._parent_mint_condition)
+        return _fulfilled_by_minters(self.mint_fulfillment, self._parent_mint_condition)
-- 
2.43.0


From bfb5b606588fb77e4d4c36e0b60522f10991b81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:15 +0000
Subject: [PATCH 26/48] fix: refuse multisig recipients that require more
 signatures than there are owners

Coins sent to such a wallet are lost, the chain refuses the condition, and
the balance of an owner could not be computed any more.
---
 tfchain/types/ConditionTypes.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tfchain/types/ConditionTypes.py b/tfchain/types/ConditionTypes.py
index d38562e..cfa6960 100644
--- a/tfchain/types/ConditionTypes.py
+++ b/tfchain/types/ConditionTypes.py
@@ -59,6 +59,11 @@ def from_recipient(recipient, lock=None):
                 condition = multi_signature_new(min_nr_sig=recipient[1], unlockhashes=recipient[0])
         else:
             raise TypeError("invalid type for recipient parameter: {}", type(recipient))
+        if isinstance(condition, ConditionMultiSignature):
+            # refuse multisig wallets which nobody could ever spend from (and which the chain refuses as well)
+            if not 1 <= condition.required_signatures <= len(condition.unlockhashes):
+                raise ValueError("a multisig recipient with {} owner(s) cannot require {} signature(s)".format(
+                    len(condition.unlockhashes), condition.required_signatures))
     
     # if lock is defined, define it as a locktime value
     if lock is not None:
-- 
2.43.0


From b58b372974cc0306006148af954de6b7c3fc3838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:37 +0000
Subject: [PATCH 27/48] fix: a single signature of a former minter does not
 complete a minting transaction

---
 tfchain/types/transactions/Minting.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tfchain/types/transactions/Minting.py b/tfchain/types/transactions/Minting.py
index eeef863..02f7148 100644
--- a/tfchain/types/transactions/Minting.py
+++ b/tfchain/types/transactions/Minting.py
@@ -2,7 +2,7 @@ from tfchain.types.transactions.Base import TransactionBaseClass, TransactionVer
 
 from tfchain.types import FulfillmentTypes, ConditionTypes
 from tfchain.types.FulfillmentTypes import FulfillmentBaseClass, FulfillmentSingleSignature, FulfillmentMultiSignature
-from tfchain.types.ConditionTypes import ConditionBaseClass, ConditionNil, ConditionMultiSignature
+from tfchain.types.ConditionTypes import ConditionBaseClass, ConditionNil, ConditionUnlockHash, ConditionMultiSignature
 from tfchain.types.PrimitiveTypes import BinaryData, Currency
 from tfchain.types.IO import CoinInput, CoinOutput
 from tfchain.internal.jsutils import generateXByteID
@@ -19,6 +19,9 @@ def _fulfilled_by_minters(fulfillment, condition):
         signed = [pair for pair in fulfillment.pairs if str(pair.public_key.unlockhash) in owners]
         if len(signed) < minters.required_signatures:
             return False
+    if isinstance(fulfillment, FulfillmentSingleSignature) and isinstance(minters, ConditionUnlockHash):
+        if str(fulfillment.public_key.unlockhash) != str(minters.unlockhash):
+            return False
     return fulfillment.is_fulfilled(parent_condition=condition)
 
 
-- 
2.43.0


From 0ea6eeddbd3d8991d61aabac94fae83287c6718b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:40 +0000
Subject: [PATCH 28/48] fix: a minting transaction signed by a former minter is
 not complete, as the chain rejects it

---
 tfchain/types/transactions/Minting.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tfchain/types/transactions/Minting.py b/tfchain/types/transactions/Minting.py
index 02f7148..af5d9b6 100644
--- a/tfchain/types/transactions/Minting.py
+++ b/tfchain/types/transactions/Minting.py
@@ -16,8 +16,7 @@ def _fulfilled_by_minters(fulfillment, condition):
     minters = condition.unwrap()
     if isinstance(fulfillment, FulfillmentMultiSignature) and isinstance(minters, ConditionMultiSignature):
         owners = [str(uh) for uh in minters.unlockhashes]
-        signed = [pair for pair in fulfillment.pairs if str(pair.public_key.unlockhash) in owners]
-        if len(signed) < minters.required_signatures:
+        if any(str(pair.public_key.unlockhash) not in owners for pair in fulfillment.pairs):
             return False
     if isinstance(fulfillment, FulfillmentSingleSignature) and isinstance(minters, ConditionUnlockHash):
         if str(fulfillment.public_key.unlockhash) != str(minters.unlockhash):
-- 
2.43.0


From bd4a311173731486808ec6c6053e4cdcbf70c8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:59 +0000
Subject: [PATCH 29/48] fix: binary encoders reject numbers with a fraction
 instead of truncating them

---
 tfchain/encoders/rivine.py | 5 ++++-
 tfchain/encoders/sia.py    | 3 +++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/tfchain/encoders/rivine.py b/tfchain/encoders/rivine.py
index f2f496e..979a84f 100644
--- a/tfchain/encoders/rivine.py
+++ b/tfchain/encoders/rivine.py
@@ -7,6 +7,7 @@ _INT_4BYTE_UPPERLIMIT = pow(2, 32) - 1
 _INT_8BYTE_UPPERLIMIT = pow(2, 64) - 1
 
 from abc import ABC, abstractmethod
+from numbers import Number
 
 
 class RivineBinaryObjectEncoderBase(ABC):
@@ -87,6 +88,8 @@ class RivineBinaryEncoder:
         if not isinstance(value, int) and not hasattr(value, '__int__'):
             raise TypeError("value is not an integer")
         ivalue = int(value)
+        if isinstance(value, Number) and ivalue != value:
+            raise TypeError("value {} is not an integer".format(value))
         if ivalue < 0:
             raise IntegerOutOfRange(
                 "integer {} is out of lower range of 0".format(ivalue))
@@ -206,7 +209,7 @@ class RivineBinaryEncoder:
         @param value: the value to be added as a single byte
         """
         if isinstance(value, int) or hasattr(value, '__int__'):
-            self.add_int8(int(value))
+            self.add_int8(value)
         else:
             if isinstance(value, str):
                 value = value.encode('utf-8')
diff --git a/tfchain/encoders/sia.py b/tfchain/encoders/sia.py
index 0eaae5d..6951532 100644
--- a/tfchain/encoders/sia.py
+++ b/tfchain/encoders/sia.py
@@ -3,6 +3,7 @@ from tfchain.encoders.exceptions import IntegerOutOfRange, SliceLengthOutOfRange
 _INT_UPPERLIMIT = pow(2, 64) - 1
 
 from abc import ABC, abstractmethod
+from numbers import Number
 
 
 class SiaBinaryObjectEncoderBase(ABC):
@@ -111,6 +112,8 @@ class SiaBinaryEncoder:
             self._data += value.to_bytes(1, byteorder='little')
         elif hasattr(value, '__int__'):
             ivalue = int(value)
+            if isinstance(value, Number) and ivalue != value:
+                raise TypeError("value {} is not an integer".format(value))
             if ivalue < 0 or ivalue > 255:
                 raise ValueError(
                     "byte overflow: invaid value of {}".format(ivalue))
-- 
2.43.0


From cab2cbf07028cf07589ac4f8399c05a1f14e650b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:01 +0000
Subject: [PATCH 30/48] fix: binary encoders encode the elements of an iterator
 given as a slice

---
 tfchain/encoders/rivine.py | 7 +++----
 tfchain/encoders/sia.py    | 7 +++----
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/tfchain/encoders/rivine.py b/tfchain/encoders/rivine.py
index 979a84f..e3c1194 100644
--- a/tfchain/encoders/rivine.py
+++ b/tfchain/encoders/rivine.py
@@ -180,10 +180,9 @@ class RivineBinaryEncoder:
             self._add_slice_length(len(value))
             self._data += value
         else:
-            length = 0
-            for _ in value:
-                length += 1
-            self._add_slice_length(length)
+            # the elements are visited twice, which an iterator does not allow
+            value = list(value)
+            self._add_slice_length(len(value))
             self.add_array(value)
 
     def _add_slice_length(self, length):
diff --git a/tfchain/encoders/sia.py b/tfchain/encoders/sia.py
index 6951532..509a6bf 100644
--- a/tfchain/encoders/sia.py
+++ b/tfchain/encoders/sia.py
@@ -93,10 +93,9 @@ class SiaBinaryEncoder:
             self.add_int(len(value))
             self._data += value
         else:
-            length = 0
-            for _ in value:
-                length += 1
-            self.add_int(length)
+            # the elements are visited twice, which an iterator does not allow
+            value = list(value)
+            self.add_int(len(value))
             self.add_array(value)
 
     def add_byte(self, value):
-- 
2.43.0


From 0ccdbb6926acb027763c727791dd7a0f7b5782f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:19 +0000
Subject: [PATCH 31/48] fix: amounts of more than 28 digits are not rounded

---
 tfchain/types/PrimitiveTypes.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/tfchain/types/PrimitiveTypes.py b/tfchain/types/PrimitiveTypes.py
index e8a56f8..efad2e3 100644
--- a/tfchain/types/PrimitiveTypes.py
+++ b/tfchain/types/PrimitiveTypes.py
@@ -175,7 +175,10 @@ class Hash(BinaryData):
 
 
 from math import floor
-from decimal import Decimal
+from decimal import Context, Decimal, Inexact, InvalidOperation, Overflow
+
+# amounts are computed exactly, whatever their size, and never rounded
+_EXACT = Context(prec=1000, traps=[Inexact, InvalidOperation, Overflow])
 
 
 class Currency(BaseDataTypeClass):
@@ -195,7 +198,7 @@ class Currency(BaseDataTypeClass):
         if obj == '':
             obj = None
         c = cls()
-        c.value = Decimal(obj) * Decimal('0.000000001')
+        c.value = _EXACT.multiply(Decimal(obj), Decimal('0.000000001'))
         return c
 
     @property
@@ -231,31 +234,31 @@ class Currency(BaseDataTypeClass):
     # operator overloading to allow currencies to be summed
     def __add__(self, other):
         other = Currency._op_other_as_currency(other)
-        value = self.value + other.value
+        value = _EXACT.add(self.value, other.value)
         return Currency(value=value)
     __radd__ = __add__
 
     def __iadd__(self, other):
         other = Currency._op_other_as_currency(other)
-        self.value += other.value
+        self.value = _EXACT.add(self.value, other.value)
         return self
 
     # operator overloading to allow currencies to be multiplied
     def __mul__(self, other):
         other = Currency._op_other_as_currency(other)
-        value = self.value * other.value
+        value = _EXACT.multiply(self.value, other.value)
         return Currency(value=value)
     __rmul__ = __mul__
 
     def __imul__(self, other):
         other = Currency._op_other_as_currency(other)
-        self.value *= other.value
+        self.value = _EXACT.multiply(self.value, other.value)
         return self
 
     # operator overloading to allow currencies to be subtracted
     def __sub__(self, other):
         other = Currency._op_other_as_currency(other)
-        value = self.value - other.value
+        value = _EXACT.subtract(self.value, other.value)
         return Currency(value=value)
 
     def __rsub__(self, other):
@@ -263,7 +266,7 @@ class Currency(BaseDataTypeClass):
 
     def __isub__(self, other):
         other = Currency._op_other_as_currency(other)
-        self.value -= other.value
+        self.value = _EXACT.subtract(self.value, other.value)
         return self
 
     # operator overloading to allow currencies to be compared
-- 
2.43.0


From d2f7870e40c43510d961f3d2068c8173c3cc5d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:47 +0000
Subject: [PATCH 32/48] fix: text with characters outside of its encoding is
 not decoded as binary data

---
 tfchain/types/PrimitiveTypes.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/tfchain/types/PrimitiveTypes.py b/tfchain/types/PrimitiveTypes.py
index efad2e3..7dcd58e 100644
--- a/tfchain/types/PrimitiveTypes.py
+++ b/tfchain/types/PrimitiveTypes.py
@@ -4,6 +4,16 @@ import tfchain.errors
 from tfchain.types.BaseDataType import BaseDataTypeClass
 
 
+def _bytes_from_hex(s):
+    """
+    Decode a hexadecimal string, which (other than for bytearray.fromhex) cannot contain any whitespace.
+    """
+    b = bytearray.fromhex(s)
+    if len(s) != 2*len(b):
+        raise ValueError("hexadecimal string {!r} contains whitespace".format(s))
+    return b
+
+
 class BinaryData(BaseDataTypeClass):
     """
     BinaryData is the data type used for any binary data used in tfchain.
@@ -15,13 +25,13 @@ class BinaryData(BaseDataTypeClass):
             raise TypeError(
                 "strencoding should be None or a str, not be of type {}".format(strencoding))
         if strencoding is None or strencoding.lower().strip() == 'hex':
-            self._from_str = lambda s: bytearray.fromhex(s)
+            self._from_str = lambda s: _bytes_from_hex(s)
             self._to_str = lambda value: value.hex()
         elif strencoding.lower().strip() == 'base64':
-            self._from_str = lambda s: bytearray(base64.b64decode(s))
+            self._from_str = lambda s: bytearray(base64.b64decode(s, validate=True))
             self._to_str = lambda value: base64.b64encode(value).decode()
         elif strencoding.lower().strip() == 'hexprefix':
-            self._from_str = lambda s: bytearray.fromhex(
+            self._from_str = lambda s: _bytes_from_hex(
                 s[2:] if (s.startswith("0x") or s.startswith("0X")) else s)
             self._to_str = lambda value: '0x' + value.hex()
         else:
-- 
2.43.0


From 49b5b664d7e06af1794dfb219105ccd7f8ca93c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:58 +0000
Subject: [PATCH 33/48] fix: an address of an unknown type, or whose type is
 not two hexadecimal digits, is rejected

---
 tfchain/types/ConditionTypes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tfchain/types/ConditionTypes.py b/tfchain/types/ConditionTypes.py
index cfa6960..43975b5 100644
--- a/tfchain/types/ConditionTypes.py
+++ b/tfchain/types/ConditionTypes.py
@@ -319,7 +319,9 @@ class UnlockHash(BaseDataTypeClass):
         if len(obj) != UnlockHash._TOTAL_SIZE_HEX:
             raise ValueError("UnlockHash is expexcted to be of length {} when JSON-encoded, not of length {}".format(UnlockHash._TOTAL_SIZE_HEX, len(obj)))
 
-        t = UnlockHashType(int(obj[:UnlockHash._TYPE_SIZE_HEX]))
+        t = UnlockHashType(BinaryData(value=obj[:UnlockHash._TYPE_SIZE_HEX]).value[0])
+        if t not in (UnlockHashType.NIL, UnlockHashType.PUBLIC_KEY, UnlockHashType.ATOMIC_SWAP, UnlockHashType.MULTI_SIG):
+            raise ValueError("UnlockHash type {} is unknown".format(t.value))
         h = Hash(value=obj[UnlockHash._TYPE_SIZE_HEX:UnlockHash._TYPE_SIZE_HEX+UnlockHash._HASH_SIZE_HEX])
         uh = cls(type=t, hash=h)
         
-- 
2.43.0


From ae8bf5b7e3933d547490b7d91d7660113b7a4423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:00 +0000
Subject: [PATCH 34/48] fix: an ERC20 address with characters which are not
 hexadecimal digits is not valid

---
 tfchain/types/ERC20.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tfchain/types/ERC20.py b/tfchain/types/ERC20.py
index 5c8ff52..5347c26 100644
--- a/tfchain/types/ERC20.py
+++ b/tfchain/types/ERC20.py
@@ -28,8 +28,7 @@ class ERC20Address(BinaryData):
             if len(value) != ERC20Address.SIZE*2:
                 return False
             try:
-                int(value, 16)
-                return True
+                return len(bytes.fromhex(value)) == ERC20Address.SIZE
             except ValueError:
                 return False
         elif isinstance(value, (bytes, bytearray)):
-- 
2.43.0


From 6085c595455699626ee5cdf6021d6036abebc47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:36 +0000
Subject: [PATCH 35/48] fix: integers in JSON are not converted from numbers
 with a fraction, booleans or text

---
 tfchain/internal/jsutils.py                | 14 ++++++++++++++
 tfchain/types/ConditionTypes.py            | 10 +++++-----
 tfchain/types/FulfillmentTypes.py          |  3 ++-
 tfchain/types/transactions/ThreeBot.py     | 11 ++++++-----
 tfchain/types/transactions/Transactions.py |  2 ++
 5 files changed, 29 insertions(+), 11 deletions(-)

diff --git a/tfchain/internal/jsutils.py b/tfchain/internal/jsutils.py
index 234d242..5e11c59 100644
--- a/tfchain/internal/jsutils.py
+++ b/tfchain/internal/jsutils.py
@@ -670,6 +670,20 @@ def json_dumps(obj, sort_keys=False, indent=False, encoding='ascii'):
     return json.dumps(obj, ensure_ascii=False, sort_keys=sort_keys, indent=indent, cls=Encoder.get(encoding=encoding))
 
 
+def json_uint(value, default=None):
+    """
+    Return the given value of a decoded JSON object, which has to be an unsigned (64-bit) integer,
+    or the default (if there is one) for a value that is null.
+    """
+    if value is None and default is not None:
+        return default
+    if isinstance(value, bool) or not isinstance(value, int):
+        raise TypeError("expected an integer as part of a JSON object, not {!r}".format(value))
+    if not 0 <= value < 1 << 64:
+        raise ValueError("integer {} is out of range".format(value))
+    return value
+
+
 def json_loads(s):
     if isinstance(s, bytes):
         s = s.decode('utf-8')
diff --git a/tfchain/types/ConditionTypes.py b/tfchain/types/ConditionTypes.py
index 43975b5..7a2d7be 100644
--- a/tfchain/types/ConditionTypes.py
+++ b/tfchain/types/ConditionTypes.py
@@ -4,7 +4,7 @@ from tfchain.encoders import encoder_rivine_get, encoder_sia_get, sia_encode, ri
 from tfchain.crypto import MerkleTree
 from tfchain.internal.jsutils import blake2_string
 from tfchain.types.PrimitiveTypes import BinaryData, Hash
-from tfchain.internal.jsutils import duration, jsdatetime, jstime, generateXByteID
+from tfchain.internal.jsutils import duration, jsdatetime, jstime, generateXByteID, json_uint
 
 _CONDITION_TYPE_NIL = 0
 _CONDITION_TYPE_UNLOCK_HASH = 1
@@ -13,7 +13,7 @@ _CONDITION_TYPE_LOCKTIME = 3
 _CONDITION_TYPE_MULTI_SIG = 4
 
 def from_json(obj):
-    ct = obj.get('type', 0)
+    ct = json_uint(obj.get('type', 0))
     if ct == _CONDITION_TYPE_NIL:
         return ConditionNil.from_json(obj)
     if ct == _CONDITION_TYPE_UNLOCK_HASH:
@@ -609,7 +609,7 @@ class ConditionAtomicSwap(ConditionBaseClass):
         self.sender = UnlockHash.from_json(data['sender'])
         self.receiver = UnlockHash.from_json(data['receiver'])
         self.hashed_secret = AtomicSwapSecretHash(value=data['hashedsecret'])
-        self.lock_time = int(data['timelock'])
+        self.lock_time = json_uint(data['timelock'])
 
     def json_data_object(self):
         return {
@@ -671,7 +671,7 @@ class ConditionLockTime(ConditionBaseClass):
         return self.condition
 
     def from_json_data_object(self, data):
-        self.lock = int(data['locktime'])
+        self.lock = json_uint(data['locktime'])
         cond = from_json(obj=data['condition'])
         if cond.type not in(_CONDITION_TYPE_UNLOCK_HASH, _CONDITION_TYPE_MULTI_SIG, _CONDITION_TYPE_NIL):
             raise ValueError("internal condition of ConditionLockTime cannot be of type {}".format(cond.type))
@@ -746,7 +746,7 @@ class ConditionMultiSignature(ConditionBaseClass):
         self._min_nr_sig = int(value)
 
     def from_json_data_object(self, data):
-        self._min_nr_sig = int(data['minimumsignaturecount'])
+        self._min_nr_sig = json_uint(data['minimumsignaturecount'])
         self._unlockhashes = []
         for uh in data['unlockhashes']:
             uh = UnlockHash.from_json(uh)
diff --git a/tfchain/types/FulfillmentTypes.py b/tfchain/types/FulfillmentTypes.py
index 26abc11..10fb104 100644
--- a/tfchain/types/FulfillmentTypes.py
+++ b/tfchain/types/FulfillmentTypes.py
@@ -6,9 +6,10 @@ from tfchain.types.ConditionTypes import UnlockHash, UnlockHashType, ConditionNi
 from tfchain.encoders import encoder_rivine_get, encoder_sia_get
 
 import tfchain
+from tfchain.internal.jsutils import json_uint
 
 def from_json(obj):
-    ft = obj.get('type', 0)
+    ft = json_uint(obj.get('type', 0))
     if ft == _FULFULLMENT_TYPE_SINGLE_SIG:
         return FulfillmentSingleSignature.from_json(obj)
     if ft == _FULFILLMENT_TYPE_MULTI_SIG:
diff --git a/tfchain/types/transactions/ThreeBot.py b/tfchain/types/transactions/ThreeBot.py
index f94560f..53eb0ef 100644
--- a/tfchain/types/transactions/ThreeBot.py
+++ b/tfchain/types/transactions/ThreeBot.py
@@ -6,6 +6,7 @@ from tfchain.types.ThreeBot import NetworkAddress, BotName
 from tfchain.types.PrimitiveTypes import BinaryData, Currency
 from tfchain.types.CryptoTypes import PublicKey
 from tfchain.types.IO import CoinInput, CoinOutput
+from tfchain.internal.jsutils import json_uint
 from abc import abstractmethod
 
 from tfchain.encoders import BaseRivineObjectEncoder, BaseSiaObjectEncoder
@@ -382,7 +383,7 @@ class TransactionV144(BotTransactionBaseClass):
     def _from_json_data_object(self, data):
         self._addresses = [NetworkAddress.from_json(address) for address in data.get('addresses', []) or []]
         self._names = [BotName.from_json(name) for name in data.get('names', []) or []]
-        self._number_of_months = int(data.get('nrofmonths', 0) or 0)
+        self._number_of_months = json_uint(data.get('nrofmonths', None), default=0)
         if 'txfee' in data:
             self._transaction_fee = Currency.from_json(data['txfee'])
         else:
@@ -801,14 +802,14 @@ class TransactionV145(BotTransactionBaseClass):
         return e.data
 
     def _from_json_data_object(self, data):
-        self._botid = int(data.get('id', 0) or 0)
+        self._botid = json_uint(data.get('id', None), default=0)
         addresses = data.get('addresses', {}) or {}
         self._addresses_to_add = [NetworkAddress.from_json(address) for address in addresses.get('add', []) or []]
         self._addresses_to_remove = [NetworkAddress.from_json(address) for address in addresses.get('remove', []) or []]
         names = data.get('names', {}) or {}
         self._names_to_add = [BotName.from_json(name) for name in names.get('add', []) or []]
         self._names_to_remove = [BotName.from_json(name) for name in names.get('remove', []) or []]
-        self._number_of_months = int(data.get('nrofmonths', 0) or 0)
+        self._number_of_months = json_uint(data.get('nrofmonths', None), default=0)
         if 'txfee' in data:
             self._transaction_fee = Currency.from_json(data['txfee'])
         else:
@@ -1187,7 +1188,7 @@ class TransactionV146(BotTransactionBaseClass):
         # decode sender info
         if 'sender' in data:
             bot_data = data['sender']
-            self._sender_botid = int(bot_data.get('id', 0) or 0)
+            self._sender_botid = json_uint(bot_data.get('id', None), default=0)
             signature = bot_data.get('signature', None)
             self.sender_signature = ED25519Signature.from_json(signature) if signature else None
         else:
@@ -1196,7 +1197,7 @@ class TransactionV146(BotTransactionBaseClass):
         # decode receiver info
         if 'receiver' in data:
             bot_data = data['receiver']
-            self._receiver_botid = int(bot_data.get('id', 0) or 0)
+            self._receiver_botid = json_uint(bot_data.get('id', None), default=0)
             signature = bot_data.get('signature', None)
             self.receiver_signature = ED25519Signature.from_json(signature) if signature else None
         else:
diff --git a/tfchain/types/transactions/Transactions.py b/tfchain/types/transactions/Transactions.py
index f5607bc..264d3ad 100644
--- a/tfchain/types/transactions/Transactions.py
+++ b/tfchain/types/transactions/Transactions.py
@@ -73,6 +73,8 @@ def from_json(obj, id=None):
         raise TypeError(
             "only a dictionary or JSON-encoded dictionary is supported as input: type {} is not supported", type(obj))
     tt = obj.get('version', -1)
+    if isinstance(tt, (bool, float)):
+        raise UnknownTransansactionVersion("transaction version {} is not an integer".format(tt))
 
     txn = None
     if tt == TransactionVersion.STANDARD:
-- 
2.43.0


From a9d15e1ae8ed0fefb71811b9d9f31b0d7c336793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:37 +0000
Subject: [PATCH 36/48] fix: a public key without the key is rejected

---
 tfchain/types/CryptoTypes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tfchain/types/CryptoTypes.py b/tfchain/types/CryptoTypes.py
index fd56908..24b19fc 100644
--- a/tfchain/types/CryptoTypes.py
+++ b/tfchain/types/CryptoTypes.py
@@ -73,6 +73,8 @@ class PublicKey(BaseDataTypeClass):
             raise ValueError("invalid JSON-encoded PublicKey: {}".format(obj))
         pk = cls()
         pk._specifier = PublicKeySpecifier.from_json(parts[0])
+        if not parts[1]:
+            raise ValueError("JSON-encoded PublicKey {} has no key".format(obj))
         pk._hash = Hash.from_json(parts[1])
         return pk
 
-- 
2.43.0


From 2b6919d1cadd114949f9dd7a69506e9d353608cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:05 +0000
Subject: [PATCH 37/48] fix: an amount that can be represented is not rejected
 because of zeros beyond the ninth decimal

---
 tfchain/types/PrimitiveTypes.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tfchain/types/PrimitiveTypes.py b/tfchain/types/PrimitiveTypes.py
index 7dcd58e..e389fe4 100644
--- a/tfchain/types/PrimitiveTypes.py
+++ b/tfchain/types/PrimitiveTypes.py
@@ -233,7 +233,11 @@ class Currency(BaseDataTypeClass):
             d = Decimal(value)
             sign, _, exp = d.as_tuple()
             if exp < -9:
-                raise tfchain.errors.CurrencyPrecisionOverflow(d)
+                # zeros beyond the ninth decimal do not matter, anything else cannot be represented
+                try:
+                    d = _EXACT.quantize(d, Decimal('0.000000001'))
+                except (Inexact, InvalidOperation):
+                    raise tfchain.errors.CurrencyPrecisionOverflow(d)
             if sign != 0:
                 raise tfchain.errors.CurrencyNegativeValue(d)
             self._value = d
-- 
2.43.0


From a7e75f17a3e35025928e1dcc602621627b48b4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:06 +0000
Subject: [PATCH 38/48] fix: a date that the chain would take for a block
 height is no valid output lock

---
 tfchain/types/ConditionTypes.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/tfchain/types/ConditionTypes.py b/tfchain/types/ConditionTypes.py
index 7a2d7be..725e8f2 100644
--- a/tfchain/types/ConditionTypes.py
+++ b/tfchain/types/ConditionTypes.py
@@ -140,14 +140,24 @@ class OutputLock:
                 self._value = current_timestamp + offset
             else:
                 # interpret string as a datetime
-                self._value = jsdatetime.fromString(value)
+                self._value = OutputLock._timestamp_check(jsdatetime.fromString(value), value)
         elif isinstance(value, timedelta):
             self._value = current_timestamp + int(value.total_seconds())
         elif isinstance(value, datetime):
-            self._value = int(value.timestamp())
+            self._value = OutputLock._timestamp_check(int(value.timestamp()), value)
         else:
             raise TypeError("cannot set OutputLock using invalid type {}".format(type(value)))
 
+    @staticmethod
+    def _timestamp_check(timestamp, value):
+        """
+        Check that a timestamp is not one which the chain would take for a block height (or refuse),
+        a zero (undefined) timestamp excepted.
+        """
+        if timestamp != 0 and timestamp < OutputLock._MIN_TIMESTAMP_VALUE:
+            raise ValueError("{} is too long ago to be used as an output lock".format(value))
+        return timestamp
+
     def __int__(self):
         return self._value
 
-- 
2.43.0


From 0d4007d469d5c51e991161605a19f5a11f1ddb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:07 +0000
Subject: [PATCH 39/48] fix: text with a sign in the middle is no time delta

---
 tfchain/internal/jsutils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tfchain/internal/jsutils.py b/tfchain/internal/jsutils.py
index 5e11c59..f1bcb41 100644
--- a/tfchain/internal/jsutils.py
+++ b/tfchain/internal/jsutils.py
@@ -261,6 +261,8 @@ class Time_(object):
         if 0 or '' then is now
         """
         txt = txt.strip()
+        if re.fullmatch(r"[+-]\d+(\.\d*)?\w", txt) is None:
+            raise ValueError("{!r} is not a (signed) number followed by a time unit".format(txt))
         unit = txt[-1]
         if txt[-1] not in list(TIMES.keys()):
             raise RuntimeError(
-- 
2.43.0


From 90ff4a24f4f51b596720ae3a7d010b330a64a57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:43 +0000
Subject: [PATCH 40/48] fix: refuse transaction JSON whose lists and data are
 no lists and objects

---
 tfchain/internal/jsutils.py            | 12 ++++++++++++
 tfchain/types/ConditionTypes.py        |  4 ++--
 tfchain/types/FulfillmentTypes.py      |  4 ++--
 tfchain/types/transactions/Base.py     |  6 +++++-
 tfchain/types/transactions/ERC20.py    |  5 +++--
 tfchain/types/transactions/Minting.py  |  8 ++++----
 tfchain/types/transactions/Standard.py | 24 ++++++++++++++----------
 tfchain/types/transactions/ThreeBot.py | 22 +++++++++++-----------
 8 files changed, 53 insertions(+), 32 deletions(-)

diff --git a/tfchain/internal/jsutils.py b/tfchain/internal/jsutils.py
index f1bcb41..8e4ec60 100644
--- a/tfchain/internal/jsutils.py
+++ b/tfchain/internal/jsutils.py
@@ -686,6 +686,18 @@ def json_uint(value, default=None):
     return value
 
 
+def json_list(value):
+    """
+    Return the given value of a decoded JSON object, which has to be an array,
+    or an empty list for a value that is null.
+    """
+    if value is None:
+        return []
+    if not isinstance(value, (list, tuple)):
+        raise TypeError("expected an array as part of a JSON object, not {!r}".format(value))
+    return value
+
+
 def json_loads(s):
     if isinstance(s, bytes):
         s = s.decode('utf-8')
diff --git a/tfchain/types/ConditionTypes.py b/tfchain/types/ConditionTypes.py
index 725e8f2..faeefbd 100644
--- a/tfchain/types/ConditionTypes.py
+++ b/tfchain/types/ConditionTypes.py
@@ -4,7 +4,7 @@ from tfchain.encoders import encoder_rivine_get, encoder_sia_get, sia_encode, ri
 from tfchain.crypto import MerkleTree
 from tfchain.internal.jsutils import blake2_string
 from tfchain.types.PrimitiveTypes import BinaryData, Hash
-from tfchain.internal.jsutils import duration, jsdatetime, jstime, generateXByteID, json_uint
+from tfchain.internal.jsutils import duration, jsdatetime, jstime, generateXByteID, json_list, json_uint
 
 _CONDITION_TYPE_NIL = 0
 _CONDITION_TYPE_UNLOCK_HASH = 1
@@ -758,7 +758,7 @@ class ConditionMultiSignature(ConditionBaseClass):
     def from_json_data_object(self, data):
         self._min_nr_sig = json_uint(data['minimumsignaturecount'])
         self._unlockhashes = []
-        for uh in data['unlockhashes']:
+        for uh in json_list(data['unlockhashes']):
             uh = UnlockHash.from_json(uh)
             self._unlockhashes.append(uh)
 
diff --git a/tfchain/types/FulfillmentTypes.py b/tfchain/types/FulfillmentTypes.py
index 10fb104..20543c3 100644
--- a/tfchain/types/FulfillmentTypes.py
+++ b/tfchain/types/FulfillmentTypes.py
@@ -6,7 +6,7 @@ from tfchain.types.ConditionTypes import UnlockHash, UnlockHashType, ConditionNi
 from tfchain.encoders import encoder_rivine_get, encoder_sia_get
 
 import tfchain
-from tfchain.internal.jsutils import json_uint
+from tfchain.internal.jsutils import json_list, json_uint
 
 def from_json(obj):
     ft = json_uint(obj.get('type', 0))
@@ -362,7 +362,7 @@ class FulfillmentMultiSignature(FulfillmentBaseClass):
 
     def from_json_data_object(self, data):
         self._pairs = []
-        for pair in data['pairs']:
+        for pair in json_list(data['pairs']):
             self._pairs.append(PublicKeySignaturePair.from_json(pair))
 
     def json_data_object(self):
diff --git a/tfchain/types/transactions/Base.py b/tfchain/types/transactions/Base.py
index d1e995a..3260e42 100644
--- a/tfchain/types/transactions/Base.py
+++ b/tfchain/types/transactions/Base.py
@@ -60,7 +60,11 @@ class TransactionBaseClass(ABC):
         if txn.version != tv:
             raise ValueError(
                 "transaction is expected to be of version {}, not version {}".format(txn.version, tv))
-        txn._from_json_data_object(obj.get('data', {}))
+        data = obj.get('data', {})
+        if not isinstance(data, dict):
+            raise TypeError(
+                "transaction data is expected to be a JSON object, not {}".format(type(data)))
+        txn._from_json_data_object(data)
         return txn
 
     @property
diff --git a/tfchain/types/transactions/ERC20.py b/tfchain/types/transactions/ERC20.py
index cb2bafd..7182dec 100644
--- a/tfchain/types/transactions/ERC20.py
+++ b/tfchain/types/transactions/ERC20.py
@@ -1,3 +1,4 @@
+from tfchain.internal.jsutils import json_list
 from tfchain.types.transactions.Base import TransactionBaseClass, TransactionVersion, InputSignatureHashFactory
 
 from tfchain.types.FulfillmentTypes import ED25519Signature, SignatureCallbackBase, SignatureRequest
@@ -207,7 +208,7 @@ class TransactionV208(TransactionBaseClass):
             self._transaction_fee = None
         # decode coin inputs
         self._coin_inputs = [CoinInput.from_json(
-            ci) for ci in data.get('coininputs', []) or []]
+            ci) for ci in json_list(data.get('coininputs'))]
         # decode refund coin output (if it exists)
         if 'refundcoinoutput' in data:
             self._refund_coin_output = CoinOutput.from_json(
@@ -642,7 +643,7 @@ class TransactionV210(TransactionBaseClass, SignatureCallbackBase):
             self._transaction_fee = None
         # decode coin inputs
         self._coin_inputs = [CoinInput.from_json(
-            ci) for ci in data.get('coininputs', []) or []]
+            ci) for ci in json_list(data.get('coininputs'))]
         # decode refund coin output (if it exists)
         if 'refundcoinoutput' in data:
             self._refund_coin_output = CoinOutput.from_json(
diff --git a/tfchain/types/transactions/Minting.py b/tfchain/types/transactions/Minting.py
index af5d9b6..8caec8f 100644
--- a/tfchain/types/transactions/Minting.py
+++ b/tfchain/types/transactions/Minting.py
@@ -5,7 +5,7 @@ from tfchain.types.FulfillmentTypes import FulfillmentBaseClass, FulfillmentSing
 from tfchain.types.ConditionTypes import ConditionBaseClass, ConditionNil, ConditionUnlockHash, ConditionMultiSignature
 from tfchain.types.PrimitiveTypes import BinaryData, Currency
 from tfchain.types.IO import CoinInput, CoinOutput
-from tfchain.internal.jsutils import generateXByteID
+from tfchain.internal.jsutils import generateXByteID, json_list
 from tfchain.encoders import encoder_sia_get
 
 def _fulfilled_by_minters(fulfillment, condition):
@@ -188,7 +188,7 @@ class TransactionV128(TransactionBaseClass):
         self._mint_fulfillment = FulfillmentTypes.from_json(
             data.get('mintfulfillment', {}))
         self._miner_fees = [Currency.from_json(
-            fee) for fee in data.get('minerfees', []) or []]
+            fee) for fee in json_list(data.get('minerfees'))]
         self._data = BinaryData.from_json(
             data.get('arbitrarydata', None) or '', strencoding='base64')
 
@@ -380,9 +380,9 @@ class TransactionV129(TransactionBaseClass):
         self._mint_fulfillment = FulfillmentTypes.from_json(
             data.get('mintfulfillment', {}))
         self._coin_outputs = [CoinOutput.from_json(
-            co) for co in data.get('coinoutputs', []) or []]
+            co) for co in json_list(data.get('coinoutputs'))]
         self._miner_fees = [Currency.from_json(
-            fee) for fee in data.get('minerfees', []) or []]
+            fee) for fee in json_list(data.get('minerfees'))]
         self._data = BinaryData.from_json(
             data.get('arbitrarydata', None) or '', strencoding='base64')
 
diff --git a/tfchain/types/transactions/Standard.py b/tfchain/types/transactions/Standard.py
index 456ce3d..cb5ba1a 100644
--- a/tfchain/types/transactions/Standard.py
+++ b/tfchain/types/transactions/Standard.py
@@ -1,3 +1,4 @@
+from tfchain.internal.jsutils import json_list
 from tfchain.types.transactions.Base import TransactionBaseClass, TransactionVersion
 from tfchain.types.IO import CoinInput, CoinOutput, BlockstakeInput, BlockstakeOutput
 from tfchain.types.PrimitiveTypes import Currency, BinaryData
@@ -35,8 +36,11 @@ class TransactionV1(TransactionBaseClass):
             raise ValueError("no data object found in Legacy Transaction (v{})".format(
                 TransactionVersion.LEGACY))
         txn_data = obj['data']
+        if not isinstance(txn_data, dict):
+            raise TypeError(
+                "transaction data is expected to be a JSON object, not {}".format(type(txn_data)))
         if 'coininputs' in txn_data:
-            for legacy_ci_info in (txn_data['coininputs'] or []):
+            for legacy_ci_info in json_list(txn_data['coininputs']):
                 unlocker = legacy_ci_info.get('unlocker', {})
                 ci_info = {
                     'parentid': legacy_ci_info.get('parentid', ''),
@@ -51,7 +55,7 @@ class TransactionV1(TransactionBaseClass):
                 ci = CoinInput.from_json(ci_info)
                 txn._coin_inputs.append(ci)
         if 'coinoutputs' in txn_data:
-            for legacy_co_info in (txn_data['coinoutputs'] or []):
+            for legacy_co_info in json_list(txn_data['coinoutputs']):
                 co_info = {
                     'value': legacy_co_info.get('value', '0'),
                     'condition': {
@@ -64,7 +68,7 @@ class TransactionV1(TransactionBaseClass):
                 co = CoinOutput.from_json(co_info)
                 txn._coin_outputs.append(co)
         if 'blockstakeinputs' in txn_data:
-            for legacy_bsi_info in (txn_data['blockstakeinputs'] or []):
+            for legacy_bsi_info in json_list(txn_data['blockstakeinputs']):
                 unlocker = legacy_bsi_info.get('unlocker', {})
                 bsi_info = {
                     'parentid': legacy_bsi_info.get('parentid', ''),
@@ -79,7 +83,7 @@ class TransactionV1(TransactionBaseClass):
                 bsi = BlockstakeInput.from_json(bsi_info)
                 txn._blockstake_inputs.append(bsi)
         if 'blockstakeoutputs' in txn_data:
-            for legacy_bso_info in (txn_data['blockstakeoutputs'] or []):
+            for legacy_bso_info in json_list(txn_data['blockstakeoutputs']):
                 bso_info = {
                     'value': legacy_bso_info.get('value', '0'),
                     'condition': {
@@ -93,7 +97,7 @@ class TransactionV1(TransactionBaseClass):
                 txn._blockstake_outputs.append(bso)
 
         if 'minerfees' in txn_data:
-            for miner_fee in (txn_data['minerfees'] or []):
+            for miner_fee in json_list(txn_data['minerfees']):
                 txn._miner_fees.append(Currency.from_json(miner_fee))
         if 'arbitrarydata' in txn_data:
             txn._data = BinaryData.from_json(txn_data.get(
@@ -301,15 +305,15 @@ class TransactionV1(TransactionBaseClass):
 
     def _from_json_data_object(self, data):
         self._coin_inputs = [CoinInput.from_json(
-            ci) for ci in data.get('coininputs', []) or []]
+            ci) for ci in json_list(data.get('coininputs'))]
         self._coin_outputs = [CoinOutput.from_json(
-            co) for co in data.get('coinoutputs', []) or []]
+            co) for co in json_list(data.get('coinoutputs'))]
         self._blockstake_inputs = [BlockstakeInput.from_json(
-            bsi) for bsi in data.get('blockstakeinputs', []) or []]
+            bsi) for bsi in json_list(data.get('blockstakeinputs'))]
         self._blockstake_outputs = [BlockstakeOutput.from_json(
-            bso) for bso in data.get('blockstakeoutputs', []) or []]
+            bso) for bso in json_list(data.get('blockstakeoutputs'))]
         self._miner_fees = [Currency.from_json(
-            fee) for fee in data.get('minerfees', []) or []]
+            fee) for fee in json_list(data.get('minerfees'))]
         self._data = BinaryData.from_json(
             data.get('arbitrarydata', None) or '', strencoding='base64')
 
diff --git a/tfchain/types/transactions/ThreeBot.py b/tfchain/types/transactions/ThreeBot.py
index 53eb0ef..b903288 100644
--- a/tfchain/types/transactions/ThreeBot.py
+++ b/tfchain/types/transactions/ThreeBot.py
@@ -6,7 +6,7 @@ from tfchain.types.ThreeBot import NetworkAddress, BotName
 from tfchain.types.PrimitiveTypes import BinaryData, Currency
 from tfchain.types.CryptoTypes import PublicKey
 from tfchain.types.IO import CoinInput, CoinOutput
-from tfchain.internal.jsutils import json_uint
+from tfchain.internal.jsutils import json_list, json_uint
 from abc import abstractmethod
 
 from tfchain.encoders import BaseRivineObjectEncoder, BaseSiaObjectEncoder
@@ -381,14 +381,14 @@ class TransactionV144(BotTransactionBaseClass):
         return e.data
 
     def _from_json_data_object(self, data):
-        self._addresses = [NetworkAddress.from_json(address) for address in data.get('addresses', []) or []]
-        self._names = [BotName.from_json(name) for name in data.get('names', []) or []]
+        self._addresses = [NetworkAddress.from_json(address) for address in json_list(data.get('addresses'))]
+        self._names = [BotName.from_json(name) for name in json_list(data.get('names'))]
         self._number_of_months = json_uint(data.get('nrofmonths', None), default=0)
         if 'txfee' in data:
             self._transaction_fee = Currency.from_json(data['txfee'])
         else:
             self._transaction_fee = None
-        self._coin_inputs = [CoinInput.from_json(ci) for ci in data.get('coininputs', []) or []]
+        self._coin_inputs = [CoinInput.from_json(ci) for ci in json_list(data.get('coininputs'))]
         if 'refundcoinoutput' in data:
             self._refund_coin_output = CoinOutput.from_json(data['refundcoinoutput'])
         else:
@@ -804,17 +804,17 @@ class TransactionV145(BotTransactionBaseClass):
     def _from_json_data_object(self, data):
         self._botid = json_uint(data.get('id', None), default=0)
         addresses = data.get('addresses', {}) or {}
-        self._addresses_to_add = [NetworkAddress.from_json(address) for address in addresses.get('add', []) or []]
-        self._addresses_to_remove = [NetworkAddress.from_json(address) for address in addresses.get('remove', []) or []]
+        self._addresses_to_add = [NetworkAddress.from_json(address) for address in json_list(addresses.get('add'))]
+        self._addresses_to_remove = [NetworkAddress.from_json(address) for address in json_list(addresses.get('remove'))]
         names = data.get('names', {}) or {}
-        self._names_to_add = [BotName.from_json(name) for name in names.get('add', []) or []]
-        self._names_to_remove = [BotName.from_json(name) for name in names.get('remove', []) or []]
+        self._names_to_add = [BotName.from_json(name) for name in json_list(names.get('add'))]
+        self._names_to_remove = [BotName.from_json(name) for name in json_list(names.get('remove'))]
         self._number_of_months = json_uint(data.get('nrofmonths', None), default=0)
         if 'txfee' in data:
             self._transaction_fee = Currency.from_json(data['txfee'])
         else:
             self._transaction_fee = None
-        self._coin_inputs = [CoinInput.from_json(ci) for ci in data.get('coininputs', []) or []]
+        self._coin_inputs = [CoinInput.from_json(ci) for ci in json_list(data.get('coininputs'))]
         if 'refundcoinoutput' in data:
             self._refund_coin_output = CoinOutput.from_json(data['refundcoinoutput'])
         else:
@@ -1204,14 +1204,14 @@ class TransactionV146(BotTransactionBaseClass):
             self._receiver_botid = None
             self._receiver_signature = None
         # decode names
-        self._names = [BotName.from_json(name) for name in data.get('names', []) or []]
+        self._names = [BotName.from_json(name) for name in json_list(data.get('names'))]
         # decode transaction fee
         if 'txfee' in data:
             self._transaction_fee = Currency.from_json(data['txfee'])
         else:
             self._transaction_fee = None
         # decode coin inputs
-        self._coin_inputs = [CoinInput.from_json(ci) for ci in data.get('coininputs', []) or []]
+        self._coin_inputs = [CoinInput.from_json(ci) for ci in json_list(data.get('coininputs'))]
         # decode refund coin output
         if 'refundcoinoutput' in data:
             self._refund_coin_output = CoinOutput.from_json(data['refundcoinoutput'])
-- 
2.43.0


From 8de7dbce9cf0e1c15b0c207d2b8016b16d9f732e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:45 +0000
Subject: [PATCH 41/48] fix: the JSON of a public key that is not set decodes
 to such a key again

---
 tfchain/types/CryptoTypes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tfchain/types/CryptoTypes.py b/tfchain/types/CryptoTypes.py
index 24b19fc..cb93917 100644
--- a/tfchain/types/CryptoTypes.py
+++ b/tfchain/types/CryptoTypes.py
@@ -76,6 +76,8 @@ class PublicKey(BaseDataTypeClass):
         if not parts[1]:
             raise ValueError("JSON-encoded PublicKey {} has no key".format(obj))
         pk._hash = Hash.from_json(parts[1])
+        if pk._specifier == PublicKeySpecifier.NIL and not any(pk._hash.value):
+            return cls()  # the JSON form of a key that is not set
         return pk
 
     @property
-- 
2.43.0


From 4e5b88b87941fd9aff7f57f434b5a0450cb24c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:19 +0000
Subject: [PATCH 42/48] fix: a hash without value is encoded as the zeros that
 it is in JSON

---
 tfchain/types/CryptoTypes.py    |  2 +-
 tfchain/types/PrimitiveTypes.py | 12 ++++++++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/tfchain/types/CryptoTypes.py b/tfchain/types/CryptoTypes.py
index cb93917..1a84a17 100644
--- a/tfchain/types/CryptoTypes.py
+++ b/tfchain/types/CryptoTypes.py
@@ -147,4 +147,4 @@ class PublicKey(BaseDataTypeClass):
         Encode this binary data according to the Rivine Binary Encoding format.
         """
         encoder.add_int8(int(self.specifier))
-        encoder.add(self.hash)
+        encoder.add_array(self.hash.value)  # nothing for a key that is not set
diff --git a/tfchain/types/PrimitiveTypes.py b/tfchain/types/PrimitiveTypes.py
index e389fe4..a0bb81a 100644
--- a/tfchain/types/PrimitiveTypes.py
+++ b/tfchain/types/PrimitiveTypes.py
@@ -183,6 +183,18 @@ class Hash(BinaryData):
             return '0'*(Hash.SIZE*2)
         return s
 
+    def sia_binary_encode(self, encoder):
+        """
+        Encode this hash according to the Sia Binary Encoding format, as zeros if it has no value (yet).
+        """
+        encoder.add_array(self._value or bytes(Hash.SIZE))
+
+    def rivine_binary_encode(self, encoder):
+        """
+        Encode this hash according to the Rivine Binary Encoding format, as zeros if it has no value (yet).
+        """
+        encoder.add_array(self._value or bytes(Hash.SIZE))
+
 
 from math import floor
 from decimal import Context, Decimal, Inexact, InvalidOperation, Overflow
-- 
2.43.0


From 8ff89ed58239e8fa8c4d8e02eaa417b1770a39d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:39 +0000
Subject: [PATCH 43/48] fix: report an unexpected HTTP success status as an
 HTTP error

---
 tfchain/internal/HttpClient.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tfchain/internal/HttpClient.py b/tfchain/internal/HttpClient.py
index 9d46d46..a3fcfe7 100644
--- a/tfchain/internal/HttpClient.py
+++ b/tfchain/internal/HttpClient.py
@@ -185,7 +185,7 @@ class Connection():
         @method method by which we will send the request, get, post, ..
 
         :raises HTTPError when not able to make the request
-        :raises Exception when receiving response code represent error
+        :raises HTTPError when receiving response code represent error
 
         :returns the response of calling the http request
         """
@@ -208,8 +208,8 @@ class Connection():
 
         #if resp.code in STATUS_AUTH_REQ: raise AuthorizationError('Not logged in or token expired')
         if resp.code not in (STATUS_OK):
-            raise Exception(
-                'unexpected HTTP response status %s: %s' % resp.code, resp)
+            raise HTTPError(urllib.error.HTTPError(
+                url, resp.code, 'unexpected HTTP response status', resp.headers, resp), url)
         return resp
 
 
-- 
2.43.0


From 913810569a8dd7a8d152da98d4b968c5c64eabaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:41 +0000
Subject: [PATCH 44/48] fix: report a 400 answer also when its message is not
 UTF-8

---
 tfchain/TFChainExplorerClient.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tfchain/TFChainExplorerClient.py b/tfchain/TFChainExplorerClient.py
index 830e26f..86e8ec8 100644
--- a/tfchain/TFChainExplorerClient.py
+++ b/tfchain/TFChainExplorerClient.py
@@ -53,7 +53,7 @@ class TFChainExplorerClient:
                 if e.status_code == 400:
                     msg = e.msg
                     if isinstance(msg, (bytes, bytearray)):
-                        msg = msg.decode('utf-8')
+                        msg = msg.decode('utf-8', errors='replace')
                     if isinstance(msg, str) and (('unrecognized hash' in msg) or ('not found' in msg)):
                         raise tfchain.errors.ExplorerNoContent("GET: no content available for specified hash (code: 400)", endpoint)
                 if e.status_code:
-- 
2.43.0


From b35a59d52c8922704dee1668dc4dad8bcf0a10c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:43 +0000
Subject: [PATCH 45/48] fix: report an HTTP error also when its message is cut
 off

---
 tfchain/internal/HttpClient.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tfchain/internal/HttpClient.py b/tfchain/internal/HttpClient.py
index a3fcfe7..0904f35 100644
--- a/tfchain/internal/HttpClient.py
+++ b/tfchain/internal/HttpClient.py
@@ -5,6 +5,7 @@ import urllib.request
 import urllib.parse
 import urllib.error
 import base64
+import http.client
 
 from urllib.parse import urlencode, urlparse, urlunparse
 import urllib.parse
@@ -37,8 +38,11 @@ class HTTPError(Exception):
         data = ''
         self.status_code = None
         if isinstance(httperror, urllib.error.HTTPError):
-            msg = data = httperror.read()
             self.status_code = httperror.code
+            try:
+                msg = data = httperror.read()
+            except (OSError, http.client.HTTPException) as exc:
+                msg = 'failed to read the HTTP error message: %s' % exc
         self.msg = msg
         self.data = data
         self.httperror = httperror
-- 
2.43.0


From 18f0e0d93c9c6410cbd05313cd019f401144e2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:12 +0000
Subject: [PATCH 46/48] fix: do not take the answer to a redirected submission
 for its outcome

---
 tfchain/internal/HttpClient.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/tfchain/internal/HttpClient.py b/tfchain/internal/HttpClient.py
index 0904f35..d005db7 100644
--- a/tfchain/internal/HttpClient.py
+++ b/tfchain/internal/HttpClient.py
@@ -51,6 +51,18 @@ class HTTPError(Exception):
         return "%s:\n %s" % (self.status_code, self.msg)
 
 
+class _RedirectHandler(urllib.request.HTTPRedirectHandler):
+    """
+    Only follows redirects of requests that do not submit any data. A redirected submission
+    would turn into a GET request, and the answer to it says nothing about the data submitted.
+    """
+
+    def redirect_request(self, req, fp, code, msg, headers, newurl):
+        if req.get_method() not in ('GET', 'HEAD'):
+            raise urllib.error.HTTPError(req.full_url, code, msg, headers, fp)
+        return super().redirect_request(req, fp, code, msg, headers, newurl)
+
+
 class Connection():
     def simpleAuth(self, url, username, password):
         """
@@ -206,7 +218,7 @@ class Connection():
             method = 'POST' if data else 'GET'
         request.get_method = lambda: method
         try:
-            resp = urllib.request.urlopen(request)
+            resp = urllib.request.build_opener(_RedirectHandler).open(request)
         except Exception as e:
             raise HTTPError(e, url)
 
-- 
2.43.0


From 0d922a27a3b605cc17c8e9781a14b84c5a6c542b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:14 +0000
Subject: [PATCH 47/48] fix: refuse the answer to a submission that gives no
 transaction ID

---
 tfchain/TFChainClient.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tfchain/TFChainClient.py b/tfchain/TFChainClient.py
index 11a1a7c..85f5830 100644
--- a/tfchain/TFChainClient.py
+++ b/tfchain/TFChainClient.py
@@ -246,7 +246,10 @@ class TFChainClient:
         resp = self.explorer_post(endpoint=endpoint, data=transaction)
         resp = json_loads(resp)
         try:
-            return str(Hash(value=resp['transactionid']))
+            transactionid = resp['transactionid']
+            if not transactionid:
+                raise tfchain.errors.ExplorerInvalidResponse("no transaction ID was returned", endpoint, resp)
+            return str(Hash(value=transactionid))
         except KeyError as exc:
             # return a KeyError as an invalid Explorer Response
             raise tfchain.errors.ExplorerInvalidResponse(str(exc), endpoint, resp) from exc
-- 
2.43.0


From e63d576216efe75c43b044d688105fe97af65e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:48 +0000
Subject: [PATCH 48/48] fix: refuse unsatisfiable multisig recipients given as
 a condition as well

A recipient that is given as a condition (possibly within a time lock) was not
checked, so coins could be sent to a multisig wallet nobody can spend from.
---
 tfchain/types/ConditionTypes.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/tfchain/types/ConditionTypes.py b/tfchain/types/ConditionTypes.py
index faeefbd..63a72c5 100644
--- a/tfchain/types/ConditionTypes.py
+++ b/tfchain/types/ConditionTypes.py
@@ -59,12 +59,14 @@ def from_recipient(recipient, lock=None):
                 condition = multi_signature_new(min_nr_sig=recipient[1], unlockhashes=recipient[0])
         else:
             raise TypeError("invalid type for recipient parameter: {}", type(recipient))
-        if isinstance(condition, ConditionMultiSignature):
-            # refuse multisig wallets which nobody could ever spend from (and which the chain refuses as well)
-            if not 1 <= condition.required_signatures <= len(condition.unlockhashes):
-                raise ValueError("a multisig recipient with {} owner(s) cannot require {} signature(s)".format(
-                    len(condition.unlockhashes), condition.required_signatures))
-    
+
+    # refuse multisig wallets which nobody could ever spend from (and which the chain refuses as well)
+    multisig = condition.unwrap()
+    if isinstance(multisig, ConditionMultiSignature):
+        if not 1 <= multisig.required_signatures <= len(multisig.unlockhashes):
+            raise ValueError("a multisig recipient with {} owner(s) cannot require {} signature(s)".format(
+                len(multisig.unlockhashes), multisig.required_signatures))
+
     # if lock is defined, define it as a locktime value
     if lock is not None:
         condition = locktime_new(lock=lock, condition=condition)
-- 
2.43.0

