From 6f3886297937c88dfea579f7d119aad2eb784c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:21 +0000
Subject: [PATCH 01/50] fix: fail over when an explorer connection breaks while
 reading, report unexpected statuses

---
 tfchain/TFChainExplorerClient.py | 10 ++++++++--
 tfchain/internal/HttpClient.py   | 11 ++++++++---
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/tfchain/TFChainExplorerClient.py b/tfchain/TFChainExplorerClient.py
index dcdf201..6ba0b9d 100644
--- a/tfchain/TFChainExplorerClient.py
+++ b/tfchain/TFChainExplorerClient.py
@@ -5,6 +5,7 @@ import tfchain
 from tfchain.internal.jsutils import json_dumps, json_loads
 from tfchain.internal.HttpClient import HTTPError, HttpClient
 import random
+from http.client import HTTPException
 
 http = HttpClient()
 
@@ -53,12 +54,15 @@ class TFChainExplorerClient:
                 if e.status_code == 400:
                     msg = e.msg
                     if isinstance(msg, (bytes, bytearray)):
-                        msg = msg.decode('utf-8')
+                        msg = msg.decode('utf-8', errors='replace')
                     if isinstance(msg, str) and (('unrecognized hash' in msg) or ('not found' in msg)):
                         raise tfchain.errors.ExplorerNoContent("GET: no content available for specified hash (code: 400)", endpoint)
                 if e.status_code:
                     raise tfchain.errors.ExplorerServerError("GET: error (code: {}): {}".format(e.status_code, e.msg), endpoint)
                 print("tfchain explorer get exception at endpoint {} on {}: {}".format(endpoint, address, e))
+            except (OSError, HTTPException) as e:
+                # the connection broke while the response was being read
+                print("tfchain explorer get exception at endpoint {} on {}: {}".format(endpoint, address, e))
         raise tfchain.errors.ExplorerNotAvailable("no explorer was available", endpoint=endpoint, addresses=self._addresses)
 
     def post(self, endpoint, data):
@@ -98,5 +102,7 @@ class TFChainExplorerClient:
                 if e.status_code:
                     raise tfchain.errors.ExplorerServerPostError("POST: error (code: {}): {}".format(e.status_code, e.msg), endpoint, data=data)
                 print("tfchain explorer get exception at endpoint {} on {}: {}".format(endpoint, address, e))
-                pass
+            except (OSError, HTTPException) as e:
+                # the connection broke while the response was being read
+                print("tfchain explorer post exception at endpoint {} on {}: {}".format(endpoint, address, e))
         raise tfchain.errors.ExplorerNotAvailable("no explorer was available", endpoint=endpoint, addresses=self._addresses)
diff --git a/tfchain/internal/HttpClient.py b/tfchain/internal/HttpClient.py
index 9d46d46..5e01cc2 100644
--- a/tfchain/internal/HttpClient.py
+++ b/tfchain/internal/HttpClient.py
@@ -1,3 +1,4 @@
+import http.client
 import urllib.request
 import urllib.error
 import urllib.parse
@@ -37,8 +38,12 @@ class HTTPError(Exception):
         data = ''
         self.status_code = None
         if isinstance(httperror, urllib.error.HTTPError):
-            msg = data = httperror.read()
             self.status_code = httperror.code
+            try:
+                msg = data = httperror.read()
+            except (OSError, http.client.HTTPException) as e:
+                # the status is known, even if the body could not be received
+                msg = '%s (%s)' % (httperror, e)
         self.msg = msg
         self.data = data
         self.httperror = httperror
@@ -208,8 +213,8 @@ class Connection():
 
         #if resp.code in STATUS_AUTH_REQ: raise AuthorizationError('Not logged in or token expired')
         if resp.code not in (STATUS_OK):
-            raise Exception(
-                'unexpected HTTP response status %s: %s' % resp.code, resp)
+            raise HTTPError(urllib.error.HTTPError(
+                url, resp.code, 'unexpected HTTP response status', resp.headers, resp), url)
         return resp
 
 
-- 
2.43.0


From 69f31e0d3edb0bd357cfc6cc728e08bd99d338f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:23 +0000
Subject: [PATCH 02/50] fix: do not wait for ever for an explorer that stopped
 answering

---
 tfchain/internal/HttpClient.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tfchain/internal/HttpClient.py b/tfchain/internal/HttpClient.py
index 5e01cc2..50b90ba 100644
--- a/tfchain/internal/HttpClient.py
+++ b/tfchain/internal/HttpClient.py
@@ -16,6 +16,9 @@ import urllib.error
 # TODO: Remove
 
 
+# seconds a server can be silent before the request is considered to have failed
+REQUEST_TIMEOUT = 30
+
 HTTP_CREATED = 201  # from practical examples, authorization created returns 201
 HTTP_OK = 200
 # An authorization token was created and provided to the client in the
@@ -207,7 +210,7 @@ class Connection():
             method = 'POST' if data else 'GET'
         request.get_method = lambda: method
         try:
-            resp = urllib.request.urlopen(request)
+            resp = urllib.request.urlopen(request, timeout=REQUEST_TIMEOUT)
         except Exception as e:
             raise HTTPError(e, url)
 
-- 
2.43.0


From 812c84f46f58c87cc75e37849adddafd95a65c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:40 +0000
Subject: [PATCH 03/50] fix: report every malformed explorer answer as
 ExplorerInvalidResponse

---
 tfchain/TFChainClient.py | 129 +++++++++++++++++++++++++--------------
 1 file changed, 82 insertions(+), 47 deletions(-)

diff --git a/tfchain/TFChainClient.py b/tfchain/TFChainClient.py
index daf9399..4064437 100644
--- a/tfchain/TFChainClient.py
+++ b/tfchain/TFChainClient.py
@@ -48,6 +48,7 @@ class NetworkType:
             return NetworkType.TESTNET
         if s == "devnet":
             return NetworkType.DEVNET
+        raise ValueError("unknown network type '{}'".format(s))
 
     def minimum_miner_fee(self):
         if self == NetworkType.DEVNET:
@@ -76,6 +77,18 @@ NetworkType.STANDARD = NetworkType(0)
 NetworkType.TESTNET = NetworkType(1)
 NetworkType.DEVNET = NetworkType(2)
 
+def _json_object_from_response(resp, endpoint):
+    """
+    Decode the response of an explorer, always expected to be a JSON object.
+    """
+    try:
+        obj = json_loads(resp)
+    except ValueError as exc:
+        raise tfchain.errors.ExplorerInvalidResponse("response is not valid JSON: {}".format(exc), endpoint, {}) from exc
+    if not isinstance(obj, dict):
+        raise tfchain.errors.ExplorerInvalidResponse("expected a JSON object as response, not {}".format(type(obj)), endpoint, {})
+    return obj
+
 class TFChainClient:
     """
     Tfchain client object
@@ -98,9 +111,13 @@ class TFChainClient:
             raise TypeError("explorer client has to be of type TFChainExplorerClient not {}".format(type(explorer_client)))
         elif self._network_type is None:
             # fetch network type from the explorer client
-            resp = self._explorer_client.get("/explorer/constants")
-            resp = json_loads(resp)
-            self._network_type = NetworkType.from_str(resp.get("chaininfo", {}).get("NetworkName", "standard"))
+            endpoint = "/explorer/constants"
+            resp = self._explorer_client.get(endpoint)
+            resp = _json_object_from_response(resp, endpoint)
+            try:
+                self._network_type = NetworkType.from_str(resp["chaininfo"]["NetworkName"])
+            except Exception as exc:
+                raise tfchain.errors.ExplorerInvalidResponse(repr(exc), endpoint, resp) from exc
 
         # create subclients
         self._threebot = TFChainThreeBotClient(self)
@@ -147,9 +164,13 @@ class TFChainClient:
         """
         Get the current blockchain info, using the last known block, as reported by an explorer.
         """
-        resp = self.explorer_get(endpoint="/explorer")
-        resp = json_loads(resp)
-        blockid = Hash.from_json(obj=resp['blockid'])
+        endpoint = "/explorer"
+        resp = self.explorer_get(endpoint=endpoint)
+        resp = _json_object_from_response(resp, endpoint)
+        try:
+            blockid = Hash.from_json(obj=resp['blockid'])
+        except Exception as exc:
+            raise tfchain.errors.ExplorerInvalidResponse(repr(exc), endpoint, resp) from exc
         last_block = self.block_get(blockid)
         return ExplorerBlockchainInfo(last_block=last_block)
 
@@ -159,20 +180,18 @@ class TFChainClient:
         
         @param value: the identifier or height that points to the desired block
         """
-        endpoint = "/explorer/?"
-        resp = {}
+        # get the explorer block
+        if isinstance(value, int):
+            endpoint = "/explorer/blocks/{}".format(int(value))
+        else:
+            blockid = self._normalize_id(value)
+            endpoint = "/explorer/hashes/"+blockid
+        resp = self.explorer_get(endpoint=endpoint)
+        resp = _json_object_from_response(resp, endpoint)
         try:
-            # get the explorer block
             if isinstance(value, int):
-                endpoint = "/explorer/blocks/{}".format(int(value))
-                resp = self.explorer_get(endpoint=endpoint)
-                resp = json_loads(resp)
                 resp = resp['block']
             else:
-                blockid = self._normalize_id(value)
-                endpoint = "/explorer/hashes/"+blockid
-                resp = self.explorer_get(endpoint=endpoint)
-                resp = json_loads(resp)
                 if resp['hashtype'] != 'blockid':
                     raise tfchain.errors.ExplorerInvalidResponse("expected hash type 'blockid' not '{}'".format(resp['hashtype']), endpoint, resp)
                 resp = resp['block']
@@ -209,9 +228,11 @@ class TFChainClient:
                 id=blockid, parentid=parentid,
                 height=height, timestamp=timestamp,
                 transactions=transactions, miner_payouts=miner_payouts)
-        except KeyError as exc:
-            # return a KeyError as an invalid Explorer Response
-            raise tfchain.errors.ExplorerInvalidResponse(str(exc), endpoint, resp) from exc
+        except tfchain.errors.ExplorerError:
+            raise
+        except Exception as exc:
+            # return any failure to parse the response as an invalid Explorer Response
+            raise tfchain.errors.ExplorerInvalidResponse(repr(exc), endpoint, resp if isinstance(resp, dict) else {}) from exc
 
     def transaction_get(self, txid):
         """
@@ -222,7 +243,7 @@ class TFChainClient:
         txid = self._normalize_id(txid)
         endpoint = "/explorer/hashes/"+txid
         resp = self.explorer_get(endpoint=endpoint)
-        resp = json_loads(resp)
+        resp = _json_object_from_response(resp, endpoint)
         try:
             if resp['hashtype'] != 'transactionid':
                 raise tfchain.errors.ExplorerInvalidResponse("expected hash type 'transactionid' not '{}'".format(resp['hashtype']), endpoint, resp)
@@ -230,9 +251,11 @@ class TFChainClient:
             if resp['id'] != txid:
                 raise tfchain.errors.ExplorerInvalidResponse("expected transaction ID '{}' not '{}'".format(txid, resp['id']), endpoint, resp)
             return self._transaction_from_explorer_transaction(resp, endpoint=endpoint, resp=resp)
-        except KeyError as exc:
-            # return a KeyError as an invalid Explorer Response
-            raise tfchain.errors.ExplorerInvalidResponse(str(exc), endpoint, resp) from exc
+        except tfchain.errors.ExplorerError:
+            raise
+        except Exception as exc:
+            # return any failure to parse the response as an invalid Explorer Response
+            raise tfchain.errors.ExplorerInvalidResponse(repr(exc), endpoint, resp if isinstance(resp, dict) else {}) from exc
 
     def transaction_put(self, transaction):
         """
@@ -244,12 +267,14 @@ class TFChainClient:
             transaction = transaction.json()
         endpoint = "/transactionpool/transactions"
         resp = self.explorer_post(endpoint=endpoint, data=transaction)
-        resp = json_loads(resp)
+        resp = _json_object_from_response(resp, endpoint)
         try:
             return str(Hash(value=resp['transactionid']))
-        except KeyError as exc:
-            # return a KeyError as an invalid Explorer Response
-            raise tfchain.errors.ExplorerInvalidResponse(str(exc), endpoint, resp) from exc
+        except tfchain.errors.ExplorerError:
+            raise
+        except Exception as exc:
+            # return any failure to parse the response as an invalid Explorer Response
+            raise tfchain.errors.ExplorerInvalidResponse(repr(exc), endpoint, resp if isinstance(resp, dict) else {}) from exc
 
     def unlockhash_get(self, target):
         """
@@ -267,7 +292,7 @@ class TFChainClient:
         unlockhash = str(ConditionTypes.from_recipient(target).unlockhash)
         endpoint = "/explorer/hashes/"+unlockhash
         resp = self.explorer_get(endpoint=endpoint)
-        resp = json_loads(resp)
+        resp = _json_object_from_response(resp, endpoint)
         try:
             if resp['hashtype'] != 'unlockhash':
                 raise tfchain.errors.ExplorerInvalidResponse("expected hash type 'unlockhash' not '{}'".format(resp['hashtype']), endpoint, resp)
@@ -302,9 +327,11 @@ class TFChainClient:
                 multisig_addresses=multisig_addresses,
                 erc20_info=erc20_info,
                 client=self)
-        except KeyError as exc:
-            # return a KeyError as an invalid Explorer Response
-            raise tfchain.errors.ExplorerInvalidResponse(str(exc), endpoint, resp) from exc
+        except tfchain.errors.ExplorerError:
+            raise
+        except Exception as exc:
+            # return any failure to parse the response as an invalid Explorer Response
+            raise tfchain.errors.ExplorerInvalidResponse(repr(exc), endpoint, resp if isinstance(resp, dict) else {}) from exc
 
     def coin_output_get(self, id):
         """
@@ -340,7 +367,7 @@ class TFChainClient:
         id = self._normalize_id(id)
         endpoint = "/explorer/hashes/"+id
         resp = self.explorer_get(endpoint=endpoint)
-        resp = json_loads(resp)
+        resp = _json_object_from_response(resp, endpoint)
         try:
             hash_type = resp['hashtype']
             if hash_type != expected_hash_type:
@@ -371,9 +398,11 @@ class TFChainClient:
                 raise tfchain.errors.ExplorerInvalidResponse("expected output {} to be part of creation Tx, but it wasn't".format(id), endpoint, resp)
             # return the output and related transaction(s)
             return (output, creation_txn, spend_txn)
-        except KeyError as exc:
-            # return a KeyError as an invalid Explorer Response
-            raise tfchain.errors.ExplorerInvalidResponse(str(exc), endpoint, resp) from exc
+        except tfchain.errors.ExplorerError:
+            raise
+        except Exception as exc:
+            # return any failure to parse the response as an invalid Explorer Response
+            raise tfchain.errors.ExplorerInvalidResponse(repr(exc), endpoint, resp if isinstance(resp, dict) else {}) from exc
 
     def _transaction_from_explorer_transaction(self, etxn, endpoint="/?", resp=None): # keyword parameters for error handling purposes only
         if resp is None:
@@ -712,14 +741,16 @@ class TFChainMinterClient():
 
         # get the mint condition
         resp = self._client.explorer_get(endpoint=endpoint)
-        resp = json_loads(resp)
+        resp = _json_object_from_response(resp, endpoint)
 
         try:
             # return the decoded mint condition
             return ConditionTypes.from_json(obj=resp['mintcondition'])
-        except KeyError as exc:
-            # return a KeyError as an invalid Explorer Response
-            raise tfchain.errors.ExplorerInvalidResponse(str(exc), endpoint, resp) from exc
+        except tfchain.errors.ExplorerError:
+            raise
+        except Exception as exc:
+            # return any failure to parse the response as an invalid Explorer Response
+            raise tfchain.errors.ExplorerInvalidResponse(repr(exc), endpoint, resp if isinstance(resp, dict) else {}) from exc
 
 
 class TFChainThreeBotClient():
@@ -764,7 +795,7 @@ class TFChainThreeBotClient():
             resp = self._client.explorer_get(endpoint=endpoint)
         except tfchain.errors.ExplorerNoContent as exc:
             raise tfchain.errors.ThreeBotNotFound(identifier) from exc
-        resp = json_loads(resp)
+        resp = _json_object_from_response(resp, endpoint)
         try:
             # return the fetched record as a named tuple, for easy semi-typed access
             record = resp['record']
@@ -775,9 +806,11 @@ class TFChainThreeBotClient():
                 public_key=PublicKey.from_json(record['publickey']),
                 expiration=int(record['expiration']),
             )
-        except KeyError as exc:
-            # return a KeyError as an invalid Explorer Response
-            raise tfchain.errors.ExplorerInvalidResponse(str(exc), endpoint, resp) from exc
+        except tfchain.errors.ExplorerError:
+            raise
+        except Exception as exc:
+            # return any failure to parse the response as an invalid Explorer Response
+            raise tfchain.errors.ExplorerInvalidResponse(repr(exc), endpoint, resp if isinstance(resp, dict) else {}) from exc
 
 
 class TFChainERC20Client():
@@ -809,7 +842,7 @@ class TFChainERC20Client():
     
         endpoint = "/explorer/hashes/"+str(unlockhash)
         resp = self._client.explorer_get(endpoint=endpoint)
-        resp = json_loads(resp)
+        resp = _json_object_from_response(resp, endpoint)
         try:
             if resp['hashtype'] != 'unlockhash':
                 raise tfchain.errors.ExplorerInvalidResponse("expected hash type 'unlockhash' not '{}'".format(resp['hashtype']), endpoint, resp)
@@ -822,9 +855,11 @@ class TFChainERC20Client():
                 address_erc20=ERC20Address.from_json(info['erc20address']),
                 confirmations=int(info['confirmations']),
             )
-        except KeyError as exc:
-            # return a KeyError as an invalid Explorer Response
-            raise tfchain.errors.ExplorerInvalidResponse(str(exc), endpoint, resp) from exc
+        except tfchain.errors.ExplorerError:
+            raise
+        except Exception as exc:
+            # return any failure to parse the response as an invalid Explorer Response
+            raise tfchain.errors.ExplorerInvalidResponse(repr(exc), endpoint, resp if isinstance(resp, dict) else {}) from exc
 
 class ThreeBotRecord():
     """
-- 
2.43.0


From 89f52ee1eb4c0aea6f600bfa291c5ab01a08d6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:41 +0000
Subject: [PATCH 04/50] fix: accept explorer reports without transactions

---
 tfchain/TFChainClient.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tfchain/TFChainClient.py b/tfchain/TFChainClient.py
index 4064437..81fb2a7 100644
--- a/tfchain/TFChainClient.py
+++ b/tfchain/TFChainClient.py
@@ -199,7 +199,7 @@ class TFChainClient:
                     raise tfchain.errors.ExplorerInvalidResponse("expected block ID '{}' not '{}'".format(blockid, resp['blockid']), endpoint, resp)
             # parse the transactions
             transactions = []
-            for etxn in resp['transactions']:
+            for etxn in resp['transactions'] or []:
                 # parse the explorer transaction
                 transaction = self._transaction_from_explorer_transaction(etxn, endpoint=endpoint, resp=resp)
                 # append the transaction to the list of transactions
@@ -298,7 +298,7 @@ class TFChainClient:
                 raise tfchain.errors.ExplorerInvalidResponse("expected hash type 'unlockhash' not '{}'".format(resp['hashtype']), endpoint, resp)
             # parse the transactions
             transactions = []
-            for etxn in resp['transactions']:
+            for etxn in resp['transactions'] or []:
                 # parse the explorer transaction
                 transaction = self._transaction_from_explorer_transaction(etxn, endpoint=endpoint, resp=resp)
                 # append the transaction to the list of transactions
-- 
2.43.0


From 3271b995258c9a45bfc158f4443d9aa316f9e05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:42 +0000
Subject: [PATCH 05/50] fix: refuse a block of another height than asked for

---
 tfchain/TFChainClient.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tfchain/TFChainClient.py b/tfchain/TFChainClient.py
index 81fb2a7..4488359 100644
--- a/tfchain/TFChainClient.py
+++ b/tfchain/TFChainClient.py
@@ -191,6 +191,8 @@ class TFChainClient:
         try:
             if isinstance(value, int):
                 resp = resp['block']
+                if resp['height'] != int(value):
+                    raise tfchain.errors.ExplorerInvalidResponse("expected block height '{}' not '{}'".format(int(value), resp['height']), endpoint, resp)
             else:
                 if resp['hashtype'] != 'blockid':
                     raise tfchain.errors.ExplorerInvalidResponse("expected hash type 'blockid' not '{}'".format(resp['hashtype']), endpoint, resp)
-- 
2.43.0


From a4bd8093792941f8cbd7c1bb2bbae8bc6f6b14ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:43 +0000
Subject: [PATCH 06/50] fix: tell the creation and spending transaction of an
 output apart within one block

---
 tfchain/TFChainClient.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tfchain/TFChainClient.py b/tfchain/TFChainClient.py
index 4488359..9c89513 100644
--- a/tfchain/TFChainClient.py
+++ b/tfchain/TFChainClient.py
@@ -382,7 +382,9 @@ class TFChainClient:
             creation_txn = tresp[0]
             spend_txn = None
             if lresp == 2:
-                if tresp[1]['height'] > creation_txn['height']:
+                # the output can be created and spent within the same block,
+                # so it are the identifiers that tell the transactions apart
+                if id in (creation_txn.get(hash_type+'s', None) or []):
                     spend_txn = tresp[1]
                 else:
                     spend_txn = creation_txn
-- 
2.43.0


From 54526a1fb4f75b5d2fe792193ffece8dcd79a129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:28 +0000
Subject: [PATCH 07/50] fix: merge the balances of a multisig wallet known
 through several addresses

---
 tfchain/TFChainWallet.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index 8c6af85..e7be6f0 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -2180,10 +2180,10 @@ class MultiSigWalletBalance(WalletBalance):
             return self
         if not isinstance(other, MultiSigWalletBalance):
             if isinstance(other, (WalletBalance, WalletsBalance)):
-                return WalletsBalance().balance_add(self).balance_add(self)
+                return WalletsBalance().balance_add(self).balance_add(other)
             # can only merge 2 multi-signature wallet balances
             raise TypeError("other balance has to be of type multi-signature wallet balance")
-        if self.address != other.addres:
+        if self.address != other.address:
             raise ValueError("other balance is for a different MultiSignature Wallet, cannot be merged")
         # piggy-back on the super class for the actual merge logic
         return super().balance_add(other._base)
@@ -2275,7 +2275,7 @@ class WalletsBalance(WalletBalance):
         if address not in self._wallets:
             self._wallets[address] = balance
             return
-        self._wallets[address] = self._wallets[address].merge(balance)
+        self._wallets[address] = self._wallets[address].balance_add(balance)
 
     def __repr__(self):
         result = super().__repr__()
-- 
2.43.0


From 89153078b663921644cf3ddf865b240dc7291025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:45 +0000
Subject: [PATCH 08/50] fix: fetch every co-owned multisig wallet once when
 computing a balance

---
 tfchain/TFChainWallet.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index e7be6f0..f5bc24e 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -204,7 +204,9 @@ class TFChainWallet:
                 balance = balance.balance_add(uh_balance)
                 # collect all multisig addresses
                 for address in result.multisig_addresses:
-                    multisig_addresses.append(str(address))
+                    address = str(address)
+                    if address not in multisig_addresses:
+                        multisig_addresses.append(address)
             except tfchain.errors.ExplorerNoContent:
                  # ignore this exception as it simply means
                  # the address has no activity yet on the chain
-- 
2.43.0


From 77efdbd07072f10190ec1ee2ac48bb2a6fa19ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:57 +0000
Subject: [PATCH 09/50] fix: raise the documented errors for negative and too
 precise amounts

---
 tfchain/types/PrimitiveTypes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tfchain/types/PrimitiveTypes.py b/tfchain/types/PrimitiveTypes.py
index d1e8c5b..9187291 100644
--- a/tfchain/types/PrimitiveTypes.py
+++ b/tfchain/types/PrimitiveTypes.py
@@ -220,9 +220,9 @@ class Currency(BaseDataTypeClass):
             d = Decimal(value)
             sign, _, exp = d.as_tuple()
             if exp < -9:
-                raise errors.CurrencyPrecisionOverflow(d)
+                raise tfchain.errors.CurrencyPrecisionOverflow(d)
             if sign != 0:
-                raise errors.CurrencyNegativeValue(d)
+                raise tfchain.errors.CurrencyNegativeValue(d)
             self._value = d
             return
         raise TypeError(
-- 
2.43.0


From e874e064301af03ad0dab28a69be6bf36d22a636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:58 +0000
Subject: [PATCH 10/50] fix: subtract a currency from another value in the
 right order

---
 tfchain/types/PrimitiveTypes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tfchain/types/PrimitiveTypes.py b/tfchain/types/PrimitiveTypes.py
index 9187291..08697d1 100644
--- a/tfchain/types/PrimitiveTypes.py
+++ b/tfchain/types/PrimitiveTypes.py
@@ -257,7 +257,9 @@ class Currency(BaseDataTypeClass):
         other = Currency._op_other_as_currency(other)
         value = self.value - other.value
         return Currency(value=value)
-    __rsub__ = __sub__
+
+    def __rsub__(self, other):
+        return Currency._op_other_as_currency(other).__sub__(self)
 
     def __isub__(self, other):
         other = Currency._op_other_as_currency(other)
-- 
2.43.0


From e7bee911b296867cc867ed66f1d7792647c9cd8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:33 +0000
Subject: [PATCH 11/50] fix: serialise the version of a transaction as a number

---
 tfchain/types/transactions/Base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tfchain/types/transactions/Base.py b/tfchain/types/transactions/Base.py
index 01230d6..f009ab7 100644
--- a/tfchain/types/transactions/Base.py
+++ b/tfchain/types/transactions/Base.py
@@ -195,7 +195,7 @@ class TransactionBaseClass(ABC):
         pass
 
     def json(self):
-        obj = {'version': self.version}
+        obj = {'version': self.version.value}
         data = self._json_data_object()
         if data:
             obj['data'] = data
-- 
2.43.0


From 813ff383396637de52b6eb43a25aa3f12dcc0f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:35 +0000
Subject: [PATCH 12/50] fix: predict block stake output ids by the number of
 block stake outputs, hash unsubmitted transactions

---
 tfchain/types/transactions/Base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tfchain/types/transactions/Base.py b/tfchain/types/transactions/Base.py
index f009ab7..2065935 100644
--- a/tfchain/types/transactions/Base.py
+++ b/tfchain/types/transactions/Base.py
@@ -1,5 +1,5 @@
 import json
-from tfchain.internal.jsutils import blake2_string
+from tfchain.internal.jsutils import blake2_string, json_dumps
 from tfchain.encoders import encoder_rivine_get, encoder_sia_get, BaseRivineObjectEncoder, BaseSiaObjectEncoder
 from functools import reduce
 from abc import ABC, abstractmethod, abstractclassmethod
@@ -228,8 +228,8 @@ class TransactionBaseClass(ABC):
         """
         Compute the ID of a Coin Output within this transaction.
         """
-        if index < 0 or index >= len(self.coin_outputs):
-            raise ValueError("coin output index is out of range")
+        if index < 0 or index >= len(self.blockstake_outputs):
+            raise ValueError("blockstake output index is out of range")
         return self._outputid_new(specifier=self._blockstake_outputid_specifier, index=index)
 
     def _outputid_new(self, specifier, index):
-- 
2.43.0


From 082a03eeed6b74b53d5b16bfcca42ff0656877dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:05 +0000
Subject: [PATCH 13/50] fix: accept a list with a single address string as the
 source of a payment

---
 tfchain/TFChainWallet.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index f5bc24e..b228158 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -2307,12 +2307,13 @@ class WalletsBalance(WalletBalance):
                 elif not isinstance(source, UnlockHash):
                     raise TypeError("cannot add source address from type {}".format(type(source)))
                 source = [source]
-            # add one or multiple personal/multisig addresses
+            # normalize all addresses to unlock hashes
             for value in source:
-                if isinstance(value, str):
-                    value = UnlockHash.from_json(value)
-                elif not isinstance(value, UnlockHash):
+                if not isinstance(value, (str, UnlockHash)):
                     raise TypeError("cannot add source address from type {}".format(type(value)))
+            source = [UnlockHash.from_json(value) if isinstance(value, str) else value for value in source]
+            # add one or multiple personal/multisig addresses
+            for value in source:
                 if value.type == UnlockHashType.MULTI_SIG:
                     ms_addresses.add(value)
                 elif value.type == UnlockHashType.PUBLIC_KEY:
-- 
2.43.0


From 041330f50189e5bfd71c56d2c118e90d463bd504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:38 +0000
Subject: [PATCH 14/50] fix: do not query explorers after a transaction was
 accepted

---
 tfchain/TFChainWallet.py | 48 +++++++++++++++++++++++++++++-----------
 1 file changed, 35 insertions(+), 13 deletions(-)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index b228158..950c678 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -404,13 +404,15 @@ class TFChainWallet:
         # txn should be fulfilled now
         submit = txn.is_fulfilled()
         if submit:
+            # list the addresses before submitting,
+            # as a failing key scan cannot undo an accepted transaction
+            addresses = self.addresses + balance.addresses_multisig
             # submit the transaction
             txn.id = self._transaction_put(transaction=txn)
 
             # update balance
             for ci in txn.coin_inputs:
                 balance.output_add(ci.parent_output, confirmed=False, spent=True)
-            addresses = self.addresses + balance.addresses_multisig
             for idx, co in enumerate(txn.coin_outputs):
                 if str(co.condition.unlockhash) in addresses:
                     # add the id to the coin_output, so we can track it has been spent
@@ -499,8 +501,10 @@ class TFChainWallet:
         is_fulfilled = txn.is_fulfilled()
         submit = (submit and is_fulfilled)
         if submit:
-            txn.id = self._transaction_put(transaction=txn)
+            # list the addresses before submitting,
+            # as a failing key scan cannot undo an accepted transaction
             addresses = self.addresses + balance.addresses_multisig
+            txn.id = self._transaction_put(transaction=txn)
             # update balance
             for ci in txn.coin_inputs:
                 if str(ci.parent_output.condition.unlockhash) in addresses:
@@ -750,9 +754,11 @@ class TFChainMinter():
 
         submit = txn.is_fulfilled()
         if submit:
+            # list the addresses before submitting,
+            # as a failing key scan cannot undo an accepted transaction
+            addresses = self._wallet.addresses + balance.addresses_multisig
             txn.id = self._transaction_put(transaction=txn)
             # update balance of wallet
-            addresses = self._wallet.addresses + balance.addresses_multisig
             for idx, co in enumerate(txn.coin_outputs):
                 if str(co.condition.unlockhash) in addresses:
                     # add the id to the coin_output, so we can track it has been spent
@@ -831,6 +837,10 @@ class TFChainAtomicSwap():
         secret = AtomicSwapSecret.random()
         secret_hash = AtomicSwapSecretHash.from_secret(secret)
 
+        # get the chain time before submitting,
+        # as a failing explorer cannot undo an accepted transaction
+        chain_time = self._chain_time
+
         # create the contract
         result = self._create_contract(
             recipient=participator, amount=amount, refund_time=refund_time,
@@ -840,7 +850,7 @@ class TFChainAtomicSwap():
         # return the contract, transaction, submission status as well as secret
         return AtomicSwapInitiationResult(
             AtomicSwapContract(coinoutput=result.transaction.coin_outputs[0], unspent=True,
-                current_timestamp=self._chain_time),
+                current_timestamp=chain_time),
             secret, result.transaction, result.submitted)
 
     def participate(self, initiator, amount, secret_hash, refund_time='+24h', source=None, refund=None, data=None, submit=True):
@@ -871,12 +881,16 @@ class TFChainAtomicSwap():
         # normalize secret hash
         secret_hash = AtomicSwapSecretHash(value=secret_hash)
 
+        # get the chain time before submitting,
+        # as a failing explorer cannot undo an accepted transaction
+        chain_time = self._chain_time
+
         # create the contract and return the contract, transaction and submission status
         result = self._create_contract(
             recipient=initiator, amount=amount, refund_time=refund_time, source=source,
             refund=refund, data=data, secret_hash=secret_hash, submit=submit)
         return AtomicSwapParticipationResult(
-            AtomicSwapContract(coinoutput=result.transaction.coin_outputs[0], unspent=True, current_timestamp=self._chain_time),
+            AtomicSwapContract(coinoutput=result.transaction.coin_outputs[0], unspent=True, current_timestamp=chain_time),
             result.transaction, result.submitted)
 
     def verify(self, outputid, amount=None, secret_hash=None, min_refund_time=None, sender=False, receiver=False, contract=None):
@@ -1146,11 +1160,13 @@ class TFChainAtomicSwap():
         # submit if possible
         submit = submit and txn.is_fulfilled()
         if submit:
+            # list the addresses before submitting,
+            # as a failing key scan cannot undo an accepted transaction
+            addresses = self._wallet.addresses + balance.addresses_multisig
             txn.id = self._transaction_put(transaction=txn)
             # update balance
             for ci in txn.coin_inputs:
                 balance.output_add(ci.parent_output, confirmed=False, spent=True)
-            addresses = self._wallet.addresses + balance.addresses_multisig
             for idx, co in enumerate(txn.coin_outputs):
                 if str(co.condition.unlockhash) in addresses:
                     balance.output_add(co, confirmed=False, spent=False)
@@ -1194,15 +1210,15 @@ class TFChainAtomicSwap():
         if not submit:
             raise Exception("BUG: transaction should be fulfilled at ths point, please fix or report as an isuse")
 
+        # list the addresses before submitting,
+        # as a failing key scan cannot undo an accepted transaction
+        addresses = self._wallet.addresses
         # assign transactionid
         txn.id = self._transaction_put(transaction=txn)
-        # update balance
-        balance = self._wallet.balance
-        addresses = self._wallet.addresses
+        # assign the identifiers of the outputs owned by this wallet
         for idx, co in enumerate(txn.coin_outputs):
             if str(co.condition.unlockhash) in addresses:
                 co.id = txn.coin_outputid_new(idx)
-                balance.output_add(co, confirmed=False, spent=False)
 
         # return the txn
         return txn
@@ -1441,13 +1457,15 @@ class TFChainThreeBot():
         # txn should be fulfilled now
         submit = txn.is_fulfilled()
         if submit:
+            # list the addresses before submitting,
+            # as a failing key scan cannot undo an accepted transaction
+            addresses = self._wallet.addresses + balance.addresses_multisig
             # submit the transaction
             txn.id = self._transaction_put(transaction=txn)
 
             # update balance
             for ci in txn.coin_inputs:
                 balance.output_add(ci.parent_output, confirmed=False, spent=True)
-            addresses = self._wallet.addresses + balance.addresses_multisig
             for idx, co in enumerate(txn.coin_outputs):
                 if str(co.condition.unlockhash) in addresses:
                     # add the id to the coin_output, so we can track it has been spent
@@ -1670,13 +1688,15 @@ class TFChainERC20():
         # txn should be fulfilled now
         submit = txn.is_fulfilled()
         if submit:
+            # list the addresses before submitting,
+            # as a failing key scan cannot undo an accepted transaction
+            addresses = self._wallet.addresses + balance.addresses_multisig
             # submit the transaction
             txn.id = self._transaction_put(transaction=txn)
 
             # update balance
             for ci in txn.coin_inputs:
                 balance.output_add(ci.parent_output, confirmed=False, spent=True)
-            addresses = self._wallet.addresses + balance.addresses_multisig
             for idx, co in enumerate(txn.coin_outputs):
                 if str(co.condition.unlockhash) in addresses:
                     # add the id to the coin_output, so we can track it has been spent
@@ -2528,13 +2548,15 @@ class CoinTransactionBuilder():
         # txn should be fulfilled now
         submit = txn.is_fulfilled()
         if submit:
+            # list the addresses before submitting,
+            # as a failing key scan cannot undo an accepted transaction
+            addresses = self._wallet.addresses + balance.addresses_multisig
             # submit the transaction
             txn.id = self._wallet._transaction_put(transaction=txn)
 
             # update balance
             for ci in txn.coin_inputs:
                 balance.output_add(ci.parent_output, confirmed=False, spent=True)
-            addresses = self._wallet.addresses + balance.addresses_multisig
             for idx, co in enumerate(txn.coin_outputs):
                 if str(co.condition.unlockhash) in addresses:
                     # add the id to the coin_output, so we can track it has been spent
-- 
2.43.0


From de87ac66bcc7ac2cbb6f7b8a79182fdc2e24fd51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:47 +0000
Subject: [PATCH 15/50] fix: list the transactions of a wallet with unused
 addresses

---
 tfchain/TFChainWallet.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index 950c678..e731263 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -241,8 +241,13 @@ class TFChainWallet:
         # for each address get all transactions
         transactions = set()
         for address in self.addresses:
-            result = self._unlockhash_get(address)
-            transactions.update(result.transactions)
+            try:
+                result = self._unlockhash_get(address)
+                transactions.update(result.transactions)
+            except tfchain.errors.ExplorerNoContent:
+                # ignore this exception as it simply means
+                # the address has no activity yet on the chain
+                pass
 
         # sort all transactions
         transactions = sorted(transactions, key=(lambda txn: sys.maxsize if txn.height < 0 else txn.height), reverse=True)
-- 
2.43.0


From 3c8b9ebfdccb036476bf8f0b65e33be6509ba9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:03 +0000
Subject: [PATCH 16/50] fix: keep the outputs of a multisig wallet that also is
 or was the minter

---
 tfchain/TFChainClient.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tfchain/TFChainClient.py b/tfchain/TFChainClient.py
index 9c89513..d549463 100644
--- a/tfchain/TFChainClient.py
+++ b/tfchain/TFChainClient.py
@@ -594,8 +594,8 @@ class ExplorerUnlockhashResult():
                     if balance is None:
                         balance = MultiSigWalletBalance(owners=oc.unlockhashes, signature_count=oc.required_signatures)
                     balance.output_add(co, confirmed=(not txn.unconfirmed), spent=False)
-            if isinstance(txn, TransactionV128):
-                oc = txn.mint_condition
+            if balance is None and isinstance(txn, TransactionV128) and str(txn.mint_condition.unlockhash) == address:
+                oc = txn.mint_condition.unwrap()
                 balance = MultiSigWalletBalance(owners=oc.unlockhashes, signature_count=oc.required_signatures)
         if balance is None:
             return WalletBalance() # return empty balance
-- 
2.43.0


From 46674908e2496a914fb2ea99448ea4ab033e61b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:05 +0000
Subject: [PATCH 17/50] fix: add time locked multisig outputs to a balance

---
 tfchain/TFChainWallet.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index e731263..1c0f172 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -2254,8 +2254,8 @@ class WalletsBalance(WalletBalance):
             raise TypeError("multi signature's output condition cannot be of type {} (expected: ConditionMultiSignature)".format(type(oc)))
         if not address in self._wallets:
             self._wallets[address] = MultiSigWalletBalance(
-                owners=output.condition.unlockhashes,
-                signature_count=output.condition.required_signatures)
+                owners=oc.unlockhashes,
+                signature_count=oc.required_signatures)
         self._wallets[address].output_add(output, confirmed=confirmed, spent=spent)
 
     def output_add(self, output, confirmed=True, spent=False):
-- 
2.43.0


From e3ab2f670135a8cf8c61942d4a4c8481ea6b6bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:29 +0000
Subject: [PATCH 18/50] fix: scan for keys past block boundaries and only
 register the result of a complete scan

---
 tfchain/TFChainWallet.py | 65 +++++++++++++++++-----------------------
 1 file changed, 27 insertions(+), 38 deletions(-)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index 1c0f172..e069e89 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -266,44 +266,33 @@ class TFChainWallet:
         # key track of start key count, so we can easily check at the end,
         # if we indeed scanned for any new keys
         key_count_start = self.key_count
-        # generate the key pairs, without integrating them already
-        # loop, and do this until now more are found:
-        while True:
-            pairs = []
-            used_pairs = []
-            for offset in range(count):
-                pairs.append(self._key_pair_new(integrate=False, offset=offset))
-            for pair in pairs:
-                address = str(pair.unlockhash)
-                try:
-                    self._unlockhash_get(address)
-                    # register this pair as a known index
-                    used_pairs.append(True)
-                except tfchain.errors.ExplorerNoContent:
-                    # ignore this exception as it simply means
-                    # the address has no activity yet on the chain
-                    used_pairs.append(False)
-                    pass
-            # check if any address was found
-            if not reduce(lambda a, b: a or b, used_pairs):
-                break
-
-            last_index = 0
-            for idx, pair in enumerate(pairs):
-                if used_pairs[idx]:
-                    last_index = idx
-                    self._key_pair_add(pair, add_count=False)
-                else:
-                    self._unused_key_pairs.append(pair)
-            # remove the unused pairs that came after the last known index
-            self._unused_key_pairs = self._unused_key_pairs[:-count+last_index]
-            # update the new key count
-            self._key_count += last_index + 1
-
-            # if the last pair is not used, we can stop scanning
-            if not used_pairs[-1]:
-                break
-            # otherwise continue
+        # generate the key pairs, without integrating them already,
+        # and do this until `count` keys in a row were never used
+        found = []
+        misses = 0
+        while misses < count:
+            pair = self._key_pair_new(integrate=False, offset=len(found))
+            try:
+                self._unlockhash_get(str(pair.unlockhash))
+                used = True
+                misses = 0
+            except tfchain.errors.ExplorerNoContent:
+                # ignore this exception as it simply means
+                # the address has no activity yet on the chain
+                used = False
+                misses += 1
+            found.append((pair, used))
+        # forget the unused pairs that came after the last known index
+        found = found[:len(found)-misses]
+        # only register keys now that the scan is completed, such that a
+        # scan interrupted by an error can be redone from the same index
+        for pair, used in found:
+            if used:
+                self._key_pair_add(pair, add_count=False)
+            else:
+                self._unused_key_pairs.append(pair)
+        # update the new key count
+        self._key_count += len(found)
 
         # return if we scanned new keys
         return self.key_count > key_count_start
-- 
2.43.0


From 97b16686a751ac0f2e76ab16ccf3a74435a9677e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:43 +0000
Subject: [PATCH 19/50] fix: draw swap secrets and minting nonces from the
 operating system's entropy

---
 tfchain/internal/jsutils.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/tfchain/internal/jsutils.py b/tfchain/internal/jsutils.py
index 07c7ce9..0c47c67 100644
--- a/tfchain/internal/jsutils.py
+++ b/tfchain/internal/jsutils.py
@@ -1,3 +1,4 @@
+import os
 import re
 import random
 from datetime import datetime, timedelta
@@ -35,10 +36,7 @@ def generateXCharID(x):
 
 
 def generateXByteID(x):
-    out = bytearray()
-    for _ in range(0, x):
-        out.append(generateRandomInt(0, 255))
-    return out
+    return bytearray(os.urandom(x))
 
 
 # TIME
-- 
2.43.0


From c0000097f342e043a95e077b05ea897364bf5396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:56 +0000
Subject: [PATCH 20/50] fix: keep the most valuable outputs when funding at the
 input limit

---
 tfchain/TFChainWallet.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index e069e89..e8f3658 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -2382,7 +2382,8 @@ class WalletsBalance(WalletBalance):
             collected += co.value
             outputs.append(co)
             if len(outputs) > _MAX_RIVINE_TRANSACTION_INPUTS:
-                # to not reach the input limit
+                # to not reach the input limit, drop the output with the least value
+                outputs.sort(key=lambda co: co.value)
                 collected -= outputs.pop(0).value
             if collected >= amount:
                 return outputs, collected
@@ -2400,7 +2401,8 @@ class WalletsBalance(WalletBalance):
             collected += co.value
             outputs.append(co)
             if len(outputs) > _MAX_RIVINE_TRANSACTION_INPUTS:
-                # to not reach the input limit
+                # to not reach the input limit, drop the output with the least value
+                outputs.sort(key=lambda co: co.value)
                 collected -= outputs.pop(0).value
             if collected >= amount:
                 return outputs, collected
@@ -2427,7 +2429,8 @@ class WalletsBalance(WalletBalance):
                 collected += co.value
                 outputs.append(co)
                 if len(outputs) > _MAX_RIVINE_TRANSACTION_INPUTS:
-                    # to not reach the input limit
+                    # to not reach the input limit, drop the output with the least value
+                    outputs.sort(key=lambda co: co.value)
                     collected -= outputs.pop(0).value
                 if collected >= amount:
                     return outputs, collected
@@ -2445,7 +2448,8 @@ class WalletsBalance(WalletBalance):
                 collected += co.value
                 outputs.append(co)
                 if len(outputs) > _MAX_RIVINE_TRANSACTION_INPUTS:
-                    # to not reach the input limit
+                    # to not reach the input limit, drop the output with the least value
+                    outputs.sort(key=lambda co: co.value)
                     collected -= outputs.pop(0).value
                 if collected >= amount:
                     return outputs, collected
-- 
2.43.0


From cbca21f8f782d033170ba1583576fa7d8c80e4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:09 +0000
Subject: [PATCH 21/50] fix: do not drain outputs that are worth less than the
 miner fee

---
 tfchain/TFChainWallet.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index e8f3658..ac5c79e 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -1982,7 +1982,7 @@ class WalletBalance(object):
             return sum([co.value for co in self._outputs_unconfirmed.values()
                 if not co.condition.lock.locked_check(time=self.chain_time, height=self.chain_height)]) or Currency()
         else:
-            return sum([co.value for co in self._outputs_unconfirmed.values()])
+            return sum([co.value for co in self._outputs_unconfirmed.values()]) or Currency()
 
     @property
     def unconfirmed_locked(self):
@@ -2112,8 +2112,10 @@ class WalletBalance(object):
             used_outputs = outputs[:n]
             outputs = outputs[n:] # and update our output list, so we do not double spend
             # compute amount, minus minimum fee and add our only output
-            amount = sum([co.value for co in used_outputs]) - miner_fee
-            txn.coin_output_add(condition=recipient, value=amount)
+            amount = sum([co.value for co in used_outputs])
+            if amount <= miner_fee:
+                continue # not even worth the miner fee
+            txn.coin_output_add(condition=recipient, value=amount-miner_fee)
             # add the coin inputs
             txn.coin_inputs = [CoinInput.from_coin_output(co) for co in used_outputs]
             # append the transaction
-- 
2.43.0


From b832a4184395c212cc39e3ac198a445a5aba32fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:26 +0000
Subject: [PATCH 22/50] fix: copy bot names and IP network addresses

---
 tfchain/types/ThreeBot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tfchain/types/ThreeBot.py b/tfchain/types/ThreeBot.py
index 82f69e8..fa7c007 100644
--- a/tfchain/types/ThreeBot.py
+++ b/tfchain/types/ThreeBot.py
@@ -172,7 +172,7 @@ class NetworkAddress(BaseDataTypeClass):
                 raise ValueError(
                     "invalid network address '{}' (type: {})".format(value, type(value)))
         elif isinstance(value, NetworkAddress):
-            self._address = value._address.copy()
+            self._address = value._address[:]
             self._type = value._type
         else:
             raise TypeError(
@@ -255,7 +255,7 @@ class BotName(BaseDataTypeClass):
                 raise ValueError("bot name '{}' is not valid".format(value))
             self._value = value
         elif isinstance(value, BotName):
-            self._value = value._value.copy()
+            self._value = value._value
         else:
             raise TypeError(
                 "bot name cannot be assigned a value of type {}".format(type(value)))
-- 
2.43.0


From d8e31cff727c51d45d5bb9daca111cba76ef066e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:51 +0000
Subject: [PATCH 23/50] fix: encode the signatures of 3Bot updates, name
 transfers and ERC20 registrations as slices

---
 tfchain/types/transactions/ERC20.py    |  4 ++--
 tfchain/types/transactions/ThreeBot.py | 12 ++++++------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/tfchain/types/transactions/ERC20.py b/tfchain/types/transactions/ERC20.py
index 0a2195d..64669f3 100644
--- a/tfchain/types/transactions/ERC20.py
+++ b/tfchain/types/transactions/ERC20.py
@@ -446,7 +446,7 @@ class TransactionV210(TransactionBaseClass, SignatureCallbackBase):
     @property
     def signature(self):
         if self._signature is None:
-            return ED25519Signature(as_array=True)
+            return ED25519Signature()
         return self._signature
 
     @signature.setter
@@ -454,7 +454,7 @@ class TransactionV210(TransactionBaseClass, SignatureCallbackBase):
         if value is None:
             self._signature = None
             return
-        self._signature = ED25519Signature(value=value, as_array=True)
+        self._signature = ED25519Signature(value=value)
 
     @property
     def coin_inputs(self):
diff --git a/tfchain/types/transactions/ThreeBot.py b/tfchain/types/transactions/ThreeBot.py
index 2fe1265..9dad5e1 100644
--- a/tfchain/types/transactions/ThreeBot.py
+++ b/tfchain/types/transactions/ThreeBot.py
@@ -676,14 +676,14 @@ class TransactionV145(BotTransactionBaseClass):
     @property
     def signature(self):
         if self._signature is None:
-            return ED25519Signature(as_array=True)
+            return ED25519Signature()
         return self._signature
     @signature.setter
     def signature(self, value):
         if value is None:
             self._signature = None
             return
-        self._signature = ED25519Signature(value=value, as_array=True)
+        self._signature = ED25519Signature(value=value)
 
     @property
     def parent_public_key(self):
@@ -1042,26 +1042,26 @@ class TransactionV146(BotTransactionBaseClass):
     @property
     def sender_signature(self):
         if self._sender_signature is None:
-            return ED25519Signature(as_array=True)
+            return ED25519Signature()
         return self._sender_signature
     @sender_signature.setter
     def sender_signature(self, value):
         if value is None:
             self._sender_signature = None
             return
-        self._sender_signature = ED25519Signature(value=value, as_array=True)
+        self._sender_signature = ED25519Signature(value=value)
 
     @property
     def receiver_signature(self):
         if self._receiver_signature is None:
-            return ED25519Signature(as_array=True)
+            return ED25519Signature()
         return self._receiver_signature
     @receiver_signature.setter
     def receiver_signature(self, value):
         if value is None:
             self._receiver_signature = None
             return
-        self._receiver_signature = ED25519Signature(value=value, as_array=True)
+        self._receiver_signature = ED25519Signature(value=value)
 
     @property
     def sender_parent_public_key(self):
-- 
2.43.0


From 2ff93a6aef26a0947555687c4d01c227b031f61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:52 +0000
Subject: [PATCH 24/50] fix: keep unsigned parts of a transaction unsigned when
 reloading it

---
 tfchain/types/FulfillmentTypes.py      |  4 ++--
 tfchain/types/transactions/ERC20.py    |  5 +----
 tfchain/types/transactions/ThreeBot.py | 14 ++++++++------
 3 files changed, 11 insertions(+), 12 deletions(-)

diff --git a/tfchain/types/FulfillmentTypes.py b/tfchain/types/FulfillmentTypes.py
index 427be76..01f2c12 100644
--- a/tfchain/types/FulfillmentTypes.py
+++ b/tfchain/types/FulfillmentTypes.py
@@ -284,7 +284,7 @@ class FulfillmentSingleSignature(FulfillmentBaseClass):
     
     def from_json_data_object(self, data):
         self._pub_key = PublicKey.from_json(data['publickey'])
-        self._signature = ED25519Signature.from_json(data['signature'])
+        self._signature = ED25519Signature.from_json(data['signature']) if data['signature'] else None
 
     def json_data_object(self):
         return {
@@ -527,7 +527,7 @@ class FulfillmentAtomicSwap(FulfillmentBaseClass):
 
     def from_json_data_object(self, data):
         self._pub_key = PublicKey.from_json(data['publickey'])
-        self._signature = ED25519Signature.from_json(data['signature'])
+        self._signature = ED25519Signature.from_json(data['signature']) if data['signature'] else None
         self._secret = None
         if 'secret' in data:
             self._secret = AtomicSwapSecret.from_json(data['secret'])
diff --git a/tfchain/types/transactions/ERC20.py b/tfchain/types/transactions/ERC20.py
index 64669f3..a0bf025 100644
--- a/tfchain/types/transactions/ERC20.py
+++ b/tfchain/types/transactions/ERC20.py
@@ -623,10 +623,7 @@ class TransactionV210(TransactionBaseClass, SignatureCallbackBase):
         else:
             self._public_key = None
         # decode signature
-        if 'signature' in data:
-            self._signature = ED25519Signature.from_json(data['signature'])
-        else:
-            self._signature = None
+        self._signature = ED25519Signature.from_json(data['signature']) if data.get('signature', None) else None
         # decode registration fee
         if 'regfee' in data:
             self.registration_fee = Currency.from_json(data['regfee'])
diff --git a/tfchain/types/transactions/ThreeBot.py b/tfchain/types/transactions/ThreeBot.py
index 9dad5e1..36d89f1 100644
--- a/tfchain/types/transactions/ThreeBot.py
+++ b/tfchain/types/transactions/ThreeBot.py
@@ -398,7 +398,9 @@ class TransactionV144(BotTransactionBaseClass):
         else:
             identification = data['identification']
             self._public_key = PublicKey.from_json(identification['publickey'])
-            self._signature = ED25519Signature.from_json(identification['signature'], as_array=True)
+            self._signature = None
+            if identification['signature']:
+                self._signature = ED25519Signature.from_json(identification['signature'], as_array=True)
 
     def _json_data_object(self):
         output = {
@@ -406,8 +408,8 @@ class TransactionV144(BotTransactionBaseClass):
             'txfee': self.transaction_fee.json(),
             'coininputs': [ci.json() for ci in self.coin_inputs],
             'identification': {
-                'publickey': self._public_key.json(),
-                'signature': self._signature.json(),
+                'publickey': self.public_key.json(),
+                'signature': self.signature.json(),
             },
         }
         addresses = self.addresses
@@ -818,7 +820,7 @@ class TransactionV145(BotTransactionBaseClass):
             self._refund_coin_output = CoinOutput.from_json(data['refundcoinoutput'])
         else:
             self._refund_coin_output = None
-        self._signature = ED25519Signature.from_json(data.get('signature', None) or None)
+        self._signature = ED25519Signature.from_json(data['signature']) if data.get('signature', None) else None
 
     def _json_data_object(self):
         output = {
@@ -1187,7 +1189,7 @@ class TransactionV146(BotTransactionBaseClass):
         if 'sender' in data:
             bot_data = data['sender']
             self._sender_botid = int(bot_data.get('id', 0) or 0)
-            self._sender_signature = ED25519Signature.from_json(bot_data.get('signature', None) or None)
+            self._sender_signature = ED25519Signature.from_json(bot_data['signature']) if bot_data.get('signature', None) else None
         else:
             self._sender_botid = None
             self._sender_signature = None
@@ -1195,7 +1197,7 @@ class TransactionV146(BotTransactionBaseClass):
         if 'receiver' in data:
             bot_data = data['receiver']
             self._receiver_botid = int(bot_data.get('id', 0) or 0)
-            self._receiver_signature = ED25519Signature.from_json(bot_data.get('signature', None) or None)
+            self._receiver_signature = ED25519Signature.from_json(bot_data['signature']) if bot_data.get('signature', None) else None
         else:
             self._receiver_botid = None
             self._receiver_signature = None
-- 
2.43.0


From a0027e0b53bd7f3b17c6d2bec01d543e6c8351c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:12 +0000
Subject: [PATCH 25/50] fix: replace the names of a 3Bot name transfer when
 assigning them

---
 tfchain/types/transactions/ThreeBot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tfchain/types/transactions/ThreeBot.py b/tfchain/types/transactions/ThreeBot.py
index 36d89f1..3b4334c 100644
--- a/tfchain/types/transactions/ThreeBot.py
+++ b/tfchain/types/transactions/ThreeBot.py
@@ -1008,7 +1008,7 @@ class TransactionV146(BotTransactionBaseClass):
         return self._names
     @names.setter
     def names(self, value):
-        self._names_to_add = []
+        self._names = []
         if not value:
             return
         for name in value:
-- 
2.43.0


From b89f0c04cb71ddc8558505485803bac6d492fcab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:13 +0000
Subject: [PATCH 26/50] fix: let a 3Bot owner co-sign a reloaded record update
 or name transfer

---
 tfchain/TFChainWallet.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index ac5c79e..6a30361 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -19,6 +19,7 @@ from tfchain.types.AtomicSwap import AtomicSwapContract
 from tfchain.types.ERC20 import ERC20Address
 from tfchain.types.transactions.Base import TransactionBaseClass
 from tfchain.types.transactions.Minting import TransactionV128, TransactionV129
+from tfchain.types.transactions.ThreeBot import TransactionV145, TransactionV146
 
 _DEFAULT_KEY_SCAN_COUNT = 3
 
@@ -470,6 +471,13 @@ class TFChainWallet:
             # define the current fulfillment if it is not defined
             if not txn.mint_fulfillment_defined():
                 txn.mint_fulfillment = FulfillmentTypes.from_condition(txn.parent_mint_condition)
+        elif isinstance(txn, TransactionV145):
+            # set the public key of the 3Bot to be updated
+            txn.parent_public_key = self.client.threebot.record_get(txn.botid).public_key
+        elif isinstance(txn, TransactionV146):
+            # set the public keys of both 3Bots involved
+            txn.sender_parent_public_key = self.client.threebot.record_get(txn.sender_botid).public_key
+            txn.receiver_parent_public_key = self.client.threebot.record_get(txn.receiver_botid).public_key
 
         # generate the signature requests
         sig_requests = txn.signature_requests_new()
-- 
2.43.0


From 0c2e9bfd02fe58e80eef13558f0ff7ccd761c3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:15 +0000
Subject: [PATCH 27/50] fix: sign the claim of a swap contract by the party
 that claims it

---
 tfchain/types/FulfillmentTypes.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/tfchain/types/FulfillmentTypes.py b/tfchain/types/FulfillmentTypes.py
index 01f2c12..862d74b 100644
--- a/tfchain/types/FulfillmentTypes.py
+++ b/tfchain/types/FulfillmentTypes.py
@@ -560,10 +560,11 @@ class FulfillmentAtomicSwap(FulfillmentBaseClass):
             if self._secret is not None:
                 return input_hash_func(public_key, self.secret)
             return input_hash_func(public_key)
-        # create a signature hash for all signees that haven't signed yet
-        for unlockhash in [parent_condition.sender, parent_condition.receiver]:
-            if str(unlockhash) != signee:
-                requests.append(SignatureRequest(unlockhash=unlockhash, input_hash_gen=input_hash_gen, callback=self))
+        # create a signature request for the only party that can fulfill the contract this way,
+        # the receiver redeems it using the secret, the sender refunds it without, if not signed yet
+        unlockhash = parent_condition.sender if self._secret is None else parent_condition.receiver
+        if str(unlockhash) != signee:
+            requests.append(SignatureRequest(unlockhash=unlockhash, input_hash_gen=input_hash_gen, callback=self))
         return requests
 
     def is_fulfilled(self, parent_condition):
-- 
2.43.0


From 2c8af4b20297854d91cf4900dd66513623ab44b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:26 +0000
Subject: [PATCH 28/50] fix: refuse to claim a swap contract that is not worth
 the miner fee

---
 tfchain/TFChainWallet.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index 6a30361..2ba20c6 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -1183,6 +1183,9 @@ class TFChainAtomicSwap():
         # create the contract and fill in the easy content
         txn = tftransactions.new()
         miner_fee = self._minium_miner_fee
+        # ensure the contract is worth more than the miner fee
+        if contract.amount <= miner_fee:
+            raise tfchain.errors.AtomicSwapInsufficientAmountError(amount=contract.amount, minimum_miner_fee=miner_fee)
         txn.miner_fee_add(miner_fee)
         txn.data = data
         # define the coin input
-- 
2.43.0


From 38065858df8fadfc849ffa2fa9e41ebafa4a295b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:17 +0000
Subject: [PATCH 29/50] fix: accept atomic swap contracts of others whatever
 their refund time

---
 tfchain/types/ConditionTypes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tfchain/types/ConditionTypes.py b/tfchain/types/ConditionTypes.py
index 2943215..aa5bf75 100644
--- a/tfchain/types/ConditionTypes.py
+++ b/tfchain/types/ConditionTypes.py
@@ -602,7 +602,8 @@ class ConditionAtomicSwap(ConditionBaseClass):
         self.sender = UnlockHash.from_json(data['sender'])
         self.receiver = UnlockHash.from_json(data['receiver'])
         self.hashed_secret = AtomicSwapSecretHash(value=data['hashedsecret'])
-        self.lock_time = int(data['timelock'])
+        # an existing contract can have any lock time, it is the chain's to judge
+        self._lock_time = OutputLock(value=int(data['timelock'])).value
 
     def json_data_object(self):
         return {
-- 
2.43.0


From fc2c84747b74b6906e7627e8ba9f381dcf04e14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:53 +0000
Subject: [PATCH 30/50] fix: keep the output id of an ERC20 coin creation

---
 tfchain/types/transactions/ERC20.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tfchain/types/transactions/ERC20.py b/tfchain/types/transactions/ERC20.py
index a0bf025..d92aa50 100644
--- a/tfchain/types/transactions/ERC20.py
+++ b/tfchain/types/transactions/ERC20.py
@@ -236,6 +236,7 @@ class TransactionV209(TransactionBaseClass):
         self._transaction_fee = None
         self._blockid = None
         self._transactionid = None
+        self._coin_output = CoinOutput()
 
         super().__init__()
 
@@ -322,8 +323,10 @@ class TransactionV209(TransactionBaseClass):
         """
         A singleton, containing the ERC20-converted TFT coins.
         """
-        condition = ConditionUnlockHash(unlockhash=self.address)
-        return [CoinOutput(value=self.value, condition=condition, id=None)]
+        # always the same object, such that the identifier assigned to it is kept
+        self._coin_output.value = self.value
+        self._coin_output.condition = ConditionUnlockHash(unlockhash=self.address)
+        return [self._coin_output]
 
     def _signature_hash_input_get(self, *extra_objects):
         e = encoder_sia_get()
-- 
2.43.0


From 6adb4993a67cd829db0ef496da546acc6e0e2e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:50 +0000
Subject: [PATCH 31/50] fix: refuse explorer answers whose identifiers are
 missing

---
 tfchain/TFChainClient.py | 39 ++++++++++++++++++++++++---------------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/tfchain/TFChainClient.py b/tfchain/TFChainClient.py
index d549463..5b9d427 100644
--- a/tfchain/TFChainClient.py
+++ b/tfchain/TFChainClient.py
@@ -89,6 +89,15 @@ def _json_object_from_response(resp, endpoint):
         raise tfchain.errors.ExplorerInvalidResponse("expected a JSON object as response, not {}".format(type(obj)), endpoint, {})
     return obj
 
+def _required_str(obj):
+    """
+    Ensure the given part of an explorer's response is a non-empty string,
+    for those parts for which an absent value would be taken for a nil value.
+    """
+    if not isinstance(obj, str) or not obj:
+        raise ValueError("expected a non-empty string, not {}".format(repr(obj)))
+    return obj
+
 class TFChainClient:
     """
     Tfchain client object
@@ -168,7 +177,7 @@ class TFChainClient:
         resp = self.explorer_get(endpoint=endpoint)
         resp = _json_object_from_response(resp, endpoint)
         try:
-            blockid = Hash.from_json(obj=resp['blockid'])
+            blockid = Hash.from_json(obj=_required_str(resp['blockid']))
         except Exception as exc:
             raise tfchain.errors.ExplorerInvalidResponse(repr(exc), endpoint, resp) from exc
         last_block = self.block_get(blockid)
@@ -208,7 +217,7 @@ class TFChainClient:
                 transactions.append(transaction)
             rawblock = resp['rawblock']
             # parse the parent id
-            parentid = Hash.from_json(obj=rawblock['parentid'])
+            parentid = Hash.from_json(obj=_required_str(rawblock['parentid']))
             # parse the miner payouts
             miner_payouts = []
             minerpayoutids = resp.get('minerpayoutids', None) or []
@@ -216,15 +225,15 @@ class TFChainClient:
             if len(eminerpayouts) != len(minerpayoutids):
                 raise tfchain.errors.ExplorerInvalidResponse("amount of miner payouts and payout ids are not matching: {} != {}".format(len(eminerpayouts), len(minerpayoutids)), endpoint, resp)
             for idx, mp in enumerate(eminerpayouts):
-                id = Hash.from_json(minerpayoutids[idx])
+                id = Hash.from_json(_required_str(minerpayoutids[idx]))
                 value = Currency.from_json(mp['value'])
-                unlockhash = UnlockHash.from_json(mp['unlockhash'])
+                unlockhash = UnlockHash.from_json(_required_str(mp['unlockhash']))
                 miner_payouts.append(ExplorerMinerPayout(id=id, value=value, unlockhash=unlockhash))
             # get the timestamp and height
             height = int(resp['height'])
             timestamp = int(rawblock['timestamp'])
             # get the block's identifier
-            blockid = Hash.from_json(resp['blockid'])
+            blockid = Hash.from_json(_required_str(resp['blockid']))
             # return the block, as reported by the explorer
             return ExplorerBlock(
                 id=blockid, parentid=parentid,
@@ -271,7 +280,7 @@ class TFChainClient:
         resp = self.explorer_post(endpoint=endpoint, data=transaction)
         resp = _json_object_from_response(resp, endpoint)
         try:
-            return str(Hash(value=resp['transactionid']))
+            return str(Hash.from_json(_required_str(resp['transactionid'])))
         except tfchain.errors.ExplorerError:
             raise
         except Exception as exc:
@@ -306,7 +315,7 @@ class TFChainClient:
                 # append the transaction to the list of transactions
                 transactions.append(transaction)
             # collect all multisig addresses
-            multisig_addresses = [UnlockHash.from_json(obj=uh) for uh in resp.get('multisigaddresses', None) or []]
+            multisig_addresses = [UnlockHash.from_json(obj=_required_str(uh)) for uh in resp.get('multisigaddresses', None) or []]
             for addr in multisig_addresses:
                 if addr.type != UnlockHashType.MULTI_SIG:
                     raise tfchain.errors.ExplorerInvalidResponse("invalid unlock hash type {} for MultiSignature Address (expected: 3)".format(addr.type), endpoint, resp)
@@ -314,8 +323,8 @@ class TFChainClient:
             if 'erc20info' in resp:
                 info = resp['erc20info']
                 erc20_info = ERC20AddressInfo(
-                    address_tft=UnlockHash.from_json(info['tftaddress']),
-                    address_erc20=ERC20Address.from_json(info['erc20address']),
+                    address_tft=UnlockHash.from_json(_required_str(info['tftaddress'])),
+                    address_erc20=ERC20Address.from_json(_required_str(info['erc20address'])),
                     confirmations=int(info['confirmations']),
                 )
 
@@ -412,7 +421,7 @@ class TFChainClient:
         if resp is None:
             resp = {}
         # parse the transactions
-        transaction = transactions.from_json(obj=etxn['rawtransaction'], id=etxn['id'])
+        transaction = transactions.from_json(obj=etxn['rawtransaction'], id=_required_str(etxn['id']))
         # add the parent (coin) outputs
         coininputoutputs = etxn.get('coininputoutputs', None) or []
         if len(transaction.coin_inputs) != len(coininputoutputs):
@@ -426,7 +435,7 @@ class TFChainClient:
         if len(transaction.coin_outputs) != len(coinoutputids):
             raise tfchain.errors.ExplorerInvalidResponse("amount of coin outputs and output identifiers are not matching: {} != {}".format(len(transaction.coin_outputs), len(coinoutputids)), endpoint, resp)
         for (idx, id) in enumerate(coinoutputids):
-            transaction.coin_outputs[idx].id = Hash.from_json(obj=id)
+            transaction.coin_outputs[idx].id = Hash.from_json(obj=_required_str(id))
         # add the parent (blockstake) outputs
         blockstakeinputoutputs = etxn.get('blockstakeinputoutputs', None) or []
         if len(transaction.blockstake_inputs) != len(blockstakeinputoutputs):
@@ -440,7 +449,7 @@ class TFChainClient:
         if len(transaction.blockstake_outputs) != len(blockstakeoutputids):
             raise tfchain.errors.ExplorerInvalidResponse("amount of blokstake outputs and output identifiers are not matching: {} != {}".format(len(transaction.blockstake_inputs), len(blockstakeoutputids)), endpoint, resp)
         for (idx, id) in enumerate(blockstakeoutputids):
-            transaction.blockstake_outputs[idx].id = Hash.from_json(obj=id)
+            transaction.blockstake_outputs[idx].id = Hash.from_json(obj=_required_str(id))
         # set the unconfirmed state
         transaction.unconfirmed = etxn.get('unconfirmed', False)
         # set the height of the transaction only if confirmed
@@ -807,7 +816,7 @@ class TFChainThreeBotClient():
                 identifier=int(record['id']),
                 names=[BotName.from_json(name) for name in record.get('names', []) or []],
                 addresses=[NetworkAddress.from_json(address) for address in record.get('addresses', []) or []],
-                public_key=PublicKey.from_json(record['publickey']),
+                public_key=PublicKey.from_json(_required_str(record['publickey'])),
                 expiration=int(record['expiration']),
             )
         except tfchain.errors.ExplorerError:
@@ -855,8 +864,8 @@ class TFChainERC20Client():
                 raise tfchain.errors.ExplorerNoContent("{} could be found but is not registered as an ERC20 withdraw address".format(str(unlockhash)), endpoint=endpoint)
             info = resp['erc20info']
             return ERC20AddressInfo(
-                address_tft=UnlockHash.from_json(info['tftaddress']),
-                address_erc20=ERC20Address.from_json(info['erc20address']),
+                address_tft=UnlockHash.from_json(_required_str(info['tftaddress'])),
+                address_erc20=ERC20Address.from_json(_required_str(info['erc20address'])),
                 confirmations=int(info['confirmations']),
             )
         except tfchain.errors.ExplorerError:
-- 
2.43.0


From 249d9aa8c9051db3e64b37c21a6b05181f7ddf56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:09 +0000
Subject: [PATCH 32/50] fix: refuse damaged nil addresses

---
 tfchain/TFChainWallet.py        | 2 +-
 tfchain/types/ConditionTypes.py | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index 2ba20c6..623ab4c 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -547,7 +547,7 @@ class TFChainWallet:
         if not isinstance(unlockhash, (str, UnlockHash)):
             raise TypeError("unlockhash cannot be of type {}".format(type(unlockhash)))
         unlockhash = str(unlockhash)
-        if unlockhash[:2] == '00':
+        if unlockhash == str(UnlockHash()):
             key = self._key_pairs.get(self.address)
         else:
             key = self._key_pairs.get(unlockhash)
diff --git a/tfchain/types/ConditionTypes.py b/tfchain/types/ConditionTypes.py
index aa5bf75..0e5e20f 100644
--- a/tfchain/types/ConditionTypes.py
+++ b/tfchain/types/ConditionTypes.py
@@ -327,6 +327,8 @@ class UnlockHash(BaseDataTypeClass):
             checksum = obj[-UnlockHash._CHECKSUM_SIZE_HEX:]
             if expected_checksum != checksum:
                 raise ValueError("unexpected checksum {}, expected {}".format(checksum, expected_checksum))
+        if str(uh) != obj.lower():
+            raise ValueError("{} is not a valid JSON-encoded UnlockHash".format(obj))
 
         return uh
     
-- 
2.43.0


From faf7e0cf40f36160b4047bab06fff23b58caed0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:09 +0000
Subject: [PATCH 33/50] fix: keep the legacy format in the JSON of a decoded
 legacy transaction

---
 tfchain/types/transactions/Standard.py | 52 +++++++++++++++++++++++---
 1 file changed, 46 insertions(+), 6 deletions(-)

diff --git a/tfchain/types/transactions/Standard.py b/tfchain/types/transactions/Standard.py
index 456ce3d..7c491b8 100644
--- a/tfchain/types/transactions/Standard.py
+++ b/tfchain/types/transactions/Standard.py
@@ -313,8 +313,27 @@ class TransactionV1(TransactionBaseClass):
         self._data = BinaryData.from_json(
             data.get('arbitrarydata', None) or '', strencoding='base64')
 
+    def json(self):
+        obj = super().json()
+        if self._legacy:
+            # a legacy transaction keeps its own (v0) format,
+            # as it would otherwise become another transaction once decoded again
+            obj['version'] = TransactionVersion.LEGACY.value
+        return obj
+
     def _json_data_object(self):
-        obj = {
+        if self._legacy:
+            obj = self._legacy_json_data_object()
+        else:
+            obj = self._standard_json_data_object()
+        keys = list(obj.keys())
+        for key in keys:
+            if not obj[key]:
+                del obj[key]
+        return obj
+
+    def _standard_json_data_object(self):
+        return {
             'coininputs': [ci.json() for ci in self._coin_inputs],
             'coinoutputs': [co.json() for co in self._coin_outputs],
             'blockstakeinputs': [bsi.json() for bsi in self._blockstake_inputs],
@@ -322,11 +341,32 @@ class TransactionV1(TransactionBaseClass):
             'minerfees': [fee.json() for fee in self._miner_fees],
             'arbitrarydata': self.data.json(),
         }
-        keys = list(obj.keys())
-        for key in keys:
-            if not obj[key]:
-                del obj[key]
-        return obj
+
+    def _legacy_json_data_object(self):
+        def input_json(inp):
+            return {
+                'parentid': inp.parentid.json(),
+                'unlocker': {
+                    'type': 1,
+                    'condition': {'publickey': inp.fulfillment.public_key.json()},
+                    'fulfillment': {'signature': inp.fulfillment.signature.json()},
+                },
+            }
+
+        def output_json(out):
+            return {
+                'value': out.value.json(),
+                'unlockhash': out.condition.unlockhash.json(),
+            }
+
+        return {
+            'coininputs': [input_json(ci) for ci in self._coin_inputs],
+            'coinoutputs': [output_json(co) for co in self._coin_outputs],
+            'blockstakeinputs': [input_json(bsi) for bsi in self._blockstake_inputs],
+            'blockstakeoutputs': [output_json(bso) for bso in self._blockstake_outputs],
+            'minerfees': [fee.json() for fee in self._miner_fees],
+            'arbitrarydata': self.data.json(),
+        }
 
     @property
     def _coin_outputid_specifier(self):
-- 
2.43.0


From 15aae488a01317d9ec020efcd325b9da536d0746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:45 +0000
Subject: [PATCH 34/50] fix: adding a balance up does not change the balances
 it was added from

---
 tfchain/TFChainWallet.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index 623ab4c..979c02f 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -2302,8 +2302,8 @@ class WalletsBalance(WalletBalance):
         Assign or merge a multi-sig wallet balance
         """
         if address not in self._wallets:
-            self._wallets[address] = balance
-            return
+            # own balance object, such that merging more into it leaves the given balance as is
+            self._wallets[address] = MultiSigWalletBalance(owners=balance._owners, signature_count=balance.signature_count)
         self._wallets[address] = self._wallets[address].balance_add(balance)
 
     def __repr__(self):
-- 
2.43.0


From 0819640fe30d46031c9d06cdf1009d3426299e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:46 +0000
Subject: [PATCH 35/50] fix: a 3Bot record has to be the one that was asked for

---
 tfchain/TFChainClient.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/tfchain/TFChainClient.py b/tfchain/TFChainClient.py
index 5b9d427..1128600 100644
--- a/tfchain/TFChainClient.py
+++ b/tfchain/TFChainClient.py
@@ -782,19 +782,21 @@ class TFChainThreeBotClient():
         @param identifier: unique 3Bot id, public key or (bot) name to search a 3Bot record for
         """
         endpoint = "/explorer/3bot"
+        public_key = None
         if isinstance(identifier, int):
             identifier = str(identifier)
         elif isinstance(identifier, BotName):
             endpoint = "/explorer/whois/3bot"
             identifier = str(identifier)
         elif isinstance(identifier, PublicKey):
+            public_key = identifier
             identifier = str(identifier)
         elif isinstance(identifier, str):
             if BotName.REGEXP.match(identifier) is not None:
                 endpoint = "/explorer/whois/3bot"
             else:
                 try:
-                    PublicKey.from_json(identifier)
+                    public_key = PublicKey.from_json(identifier)
                 except ValueError as exc:
                     raise ValueError("a 3Bot identifier in string format has to be either a valid BotName or PublicKey, '{}' is neither".format(identifier)) from exc
         else:
@@ -812,13 +814,23 @@ class TFChainThreeBotClient():
         try:
             # return the fetched record as a named tuple, for easy semi-typed access
             record = resp['record']
-            return ThreeBotRecord(
+            result = ThreeBotRecord(
                 identifier=int(record['id']),
                 names=[BotName.from_json(name) for name in record.get('names', []) or []],
                 addresses=[NetworkAddress.from_json(address) for address in record.get('addresses', []) or []],
                 public_key=PublicKey.from_json(_required_str(record['publickey'])),
                 expiration=int(record['expiration']),
             )
+            # ensure it is the record of the 3Bot that was asked for
+            if public_key is not None:
+                found = str(result.public_key) == str(public_key)
+            elif endpoint.startswith("/explorer/whois/"):
+                found = identifier.lower() in [str(name).lower() for name in result.names]
+            else:
+                found = str(result.identifier) == identifier
+            if not found:
+                raise tfchain.errors.ExplorerInvalidResponse("3Bot record is not the record of '{}'".format(identifier), endpoint, resp)
+            return result
         except tfchain.errors.ExplorerError:
             raise
         except Exception as exc:
-- 
2.43.0


From fcbe57654c5e3a967ed1c199e84e0cc60c30ea7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:47 +0000
Subject: [PATCH 36/50] fix: ERC20 address info has to be of the address that
 was asked for

---
 tfchain/TFChainClient.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/tfchain/TFChainClient.py b/tfchain/TFChainClient.py
index 1128600..a3b1890 100644
--- a/tfchain/TFChainClient.py
+++ b/tfchain/TFChainClient.py
@@ -321,12 +321,7 @@ class TFChainClient:
                     raise tfchain.errors.ExplorerInvalidResponse("invalid unlock hash type {} for MultiSignature Address (expected: 3)".format(addr.type), endpoint, resp)
             erc20_info = None
             if 'erc20info' in resp:
-                info = resp['erc20info']
-                erc20_info = ERC20AddressInfo(
-                    address_tft=UnlockHash.from_json(_required_str(info['tftaddress'])),
-                    address_erc20=ERC20Address.from_json(_required_str(info['erc20address'])),
-                    confirmations=int(info['confirmations']),
-                )
+                erc20_info = _erc20_address_info_from_response(resp, unlockhash, endpoint)
 
             # sort the transactions by height
             transactions.sort(key=(lambda txn: sys.maxsize if txn.height < 0 else txn.height), reverse=True)
@@ -615,6 +610,20 @@ class ExplorerUnlockhashResult():
             return info
         return self._client.blockchain_info_get()
 
+def _erc20_address_info_from_response(resp, unlockhash, endpoint):
+    """
+    Get the ERC20 address info out of the explorer response for the given unlock hash.
+    """
+    info = resp['erc20info']
+    address_tft = UnlockHash.from_json(_required_str(info['tftaddress']))
+    if str(address_tft) != str(unlockhash):
+        raise tfchain.errors.ExplorerInvalidResponse("ERC20 address info is for {}, not {}".format(str(address_tft), str(unlockhash)), endpoint, resp)
+    return ERC20AddressInfo(
+        address_tft=address_tft,
+        address_erc20=ERC20Address.from_json(_required_str(info['erc20address'])),
+        confirmations=int(info['confirmations']),
+    )
+
 class ERC20AddressInfo():
     """
     Contains the information for an ERC20 address (registration).
@@ -874,12 +883,7 @@ class TFChainERC20Client():
             # parse the ERC20 Info
             if not 'erc20info' in resp:
                 raise tfchain.errors.ExplorerNoContent("{} could be found but is not registered as an ERC20 withdraw address".format(str(unlockhash)), endpoint=endpoint)
-            info = resp['erc20info']
-            return ERC20AddressInfo(
-                address_tft=UnlockHash.from_json(_required_str(info['tftaddress'])),
-                address_erc20=ERC20Address.from_json(_required_str(info['erc20address'])),
-                confirmations=int(info['confirmations']),
-            )
+            return _erc20_address_info_from_response(resp, unlockhash, endpoint)
         except tfchain.errors.ExplorerError:
             raise
         except Exception as exc:
-- 
2.43.0


From 8d4bee56b4d028874bbb09c67d87e236bd8af7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:44 +0000
Subject: [PATCH 37/50] fix: only owners can sign a multi signature input, each
 of them once

---
 tfchain/types/FulfillmentTypes.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tfchain/types/FulfillmentTypes.py b/tfchain/types/FulfillmentTypes.py
index 862d74b..aa8b636 100644
--- a/tfchain/types/FulfillmentTypes.py
+++ b/tfchain/types/FulfillmentTypes.py
@@ -396,7 +396,12 @@ class FulfillmentMultiSignature(FulfillmentBaseClass):
         parent_condition = parent_condition.unwrap()
         if not isinstance(parent_condition, ConditionMultiSignature):
             raise TypeError("parent condition of FulfillmentMultiSignature cannot be of type {}".format(type(parent_condition)))
-        return len(self._pairs) >= parent_condition.required_signatures
+        owners = set(str(unlockhash) for unlockhash in parent_condition.unlockhashes)
+        signers = [str(pair.public_key.unlockhash) for pair in self._pairs]
+        if owners and (len(signers) != len(set(signers)) or not owners.issuperset(signers)):
+            # each owner can sign only once, and nobody else can sign
+            return False
+        return len(signers) >= parent_condition.required_signatures
 
 
 class PublicKeySignaturePair(BaseDataTypeClass):
-- 
2.43.0


From be031b9a065bcbe6d5db547d69acd0225c02e727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:00 +0000
Subject: [PATCH 38/50] fix: keep the signature of an input that anyone can
 sign

---
 tfchain/types/FulfillmentTypes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tfchain/types/FulfillmentTypes.py b/tfchain/types/FulfillmentTypes.py
index aa8b636..9ded841 100644
--- a/tfchain/types/FulfillmentTypes.py
+++ b/tfchain/types/FulfillmentTypes.py
@@ -307,6 +307,8 @@ class FulfillmentSingleSignature(FulfillmentBaseClass):
         unlockhash = parent_condition.unlockhash
         if str(unlockhash) == str(self.public_key.unlockhash):
             return [] # nothing to do
+        if isinstance(parent_condition, ConditionNil) and self._signature is not None:
+            return [] # anyone can sign, the first signature is to be kept
         # define the input_hash_new generator function,
         # used to create the input hash for creating the signature
         def input_hash_gen(public_key):
-- 
2.43.0


From cbb4ce965ca01c4b24ed770f56eb718f71769433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:03 +0000
Subject: [PATCH 39/50] fix: tell the precision of a too precise currency value

---
 tfchain/errors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tfchain/errors.py b/tfchain/errors.py
index 68ab770..dc105e3 100644
--- a/tfchain/errors.py
+++ b/tfchain/errors.py
@@ -35,7 +35,7 @@ class CurrencyPrecisionOverflow(Exception):
         """
         The precision of the value that caused the overflow.
         """
-        _, _, exp = self.value
+        _, _, exp = self.value.as_tuple()
         return abs(exp)
 
     @property
-- 
2.43.0


From d897dd85ef3cefff56d8d13f08d5076feff09bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:26 +0000
Subject: [PATCH 40/50] fix: an output is in a sum of balances once

---
 tfchain/TFChainWallet.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index 979c02f..c7a642a 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -2072,11 +2072,17 @@ class WalletBalance(object):
             self.chain_time = other.chain_time
             self.chain_height = other.chain_height
             self.chain_blockid = other.chain_blockid
-        # merge the outputs
-        for attr in ['_outputs', '_outputs_spent', '_outputs_unconfirmed', '_outputs_unconfirmed_spent']:
-            d = getattr(self, attr, {})
-            for id, output in getattr(other, attr, {}).items():
-                d[id] = output
+        # merge the outputs, where an output known by both as spent in one and unspent in the other is spent,
+        # and one known as confirmed in one and unconfirmed in the other is confirmed
+        for output in list(other._outputs_spent.values()):
+            self.output_add(output, confirmed=True, spent=True)
+        for output in list(other._outputs_unconfirmed_spent.values()):
+            self.output_add(output, confirmed=False, spent=True)
+        for output in list(other._outputs.values()):
+            self.output_add(output, confirmed=True, spent=False)
+        for id, output in list(other._outputs_unconfirmed.items()):
+            if id not in self._outputs:
+                self.output_add(output, confirmed=False, spent=False)
         # merge the addresses
         self._addresses |= other._addresses
         # return the modified self
-- 
2.43.0


From 3eb63e14ba187f4906728ec55511507d934af8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:46 +0000
Subject: [PATCH 41/50] fix: a block stake input of an unknown output is not
 for anyone to sign

---
 tfchain/types/IO.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tfchain/types/IO.py b/tfchain/types/IO.py
index f6eb276..564685d 100644
--- a/tfchain/types/IO.py
+++ b/tfchain/types/IO.py
@@ -250,12 +250,12 @@ class BlockstakeInput(BaseDataTypeClass):
 
     @property
     def parent_output(self):
-        return self._parent_output
+        return self._parent_output or BlockstakeOutput()
 
     @parent_output.setter
     def parent_output(self, value):
         if value is None:
-            self._parent_output = BlockstakeOutput()
+            self._parent_output = None
             return
         if not isinstance(value, BlockstakeOutput):
             raise TypeError(
-- 
2.43.0


From 25ba3da57d0cd2a6240678a1ff9cdb88f7b321c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:46 +0000
Subject: [PATCH 42/50] fix: a transaction is not fulfilled without the
 signatures of its block stake inputs

---
 tfchain/types/transactions/Base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tfchain/types/transactions/Base.py b/tfchain/types/transactions/Base.py
index 2065935..195b220 100644
--- a/tfchain/types/transactions/Base.py
+++ b/tfchain/types/transactions/Base.py
@@ -295,9 +295,12 @@ class TransactionBaseClass(ABC):
         Returns if the entire transaction is fulfilled,
         meaning it has all the required signatures in all the required places.
         """
-        return reduce(
+        fulfilled = reduce(
             (lambda r, ci: r and ci.is_fulfilled()),
             self.coin_inputs, self._extra_is_fulfilled())
+        return reduce(
+            (lambda r, bsi: r and bsi.is_fulfilled()),
+            self.blockstake_inputs, fulfilled)
 
     def _extra_is_fulfilled(self):
         """
-- 
2.43.0


From e67e2ea116c2491888fe700cef1707e4bcc26c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:53 +0000
Subject: [PATCH 43/50] fix: coins are not sent to an empty ERC20 address

---
 tfchain/TFChainWallet.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index c7a642a..b465402 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -1540,6 +1540,8 @@ class TFChainERC20():
         txn = tftransactions.erc20_convert_new()
         # define the amount and recipient
         txn.address = ERC20Address(value=address)
+        if len(txn.address) == 0:
+            raise ValueError("no ERC20 address is defined to send the coins to")
         txn.value = amount
 
         # fund the transaction
-- 
2.43.0


From 2f53916c2175b403e7edd5cba3090456011b3ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:54 +0000
Subject: [PATCH 44/50] fix: no contract is made with an empty secret hash

---
 tfchain/TFChainWallet.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tfchain/TFChainWallet.py b/tfchain/TFChainWallet.py
index b465402..ef09d54 100644
--- a/tfchain/TFChainWallet.py
+++ b/tfchain/TFChainWallet.py
@@ -882,6 +882,8 @@ class TFChainAtomicSwap():
         """
         # normalize secret hash
         secret_hash = AtomicSwapSecretHash(value=secret_hash)
+        if len(secret_hash) == 0:
+            raise ValueError("no secret hash is defined to participate with")
 
         # get the chain time before submitting,
         # as a failing explorer cannot undo an accepted transaction
-- 
2.43.0


From e6ac7c5f13f255a3b8471dce9f4ed35f18a9fc37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:26 +0000
Subject: [PATCH 45/50] fix: a public key text without its key is refused

---
 tfchain/types/CryptoTypes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tfchain/types/CryptoTypes.py b/tfchain/types/CryptoTypes.py
index fd56908..8544808 100644
--- a/tfchain/types/CryptoTypes.py
+++ b/tfchain/types/CryptoTypes.py
@@ -73,6 +73,8 @@ class PublicKey(BaseDataTypeClass):
             raise ValueError("invalid JSON-encoded PublicKey: {}".format(obj))
         pk = cls()
         pk._specifier = PublicKeySpecifier.from_json(parts[0])
+        if pk._specifier != PublicKeySpecifier.NIL and not parts[1]:
+            raise ValueError("JSON-encoded PublicKey lacks its key: {}".format(obj))
         pk._hash = Hash.from_json(parts[1])
         return pk
 
-- 
2.43.0


From fa9cd7f777fcf87d6e08871d546713175dd1dd0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:27 +0000
Subject: [PATCH 46/50] fix: an input or output of an explorer transaction is
 not read without its parent or value

---
 tfchain/types/IO.py                    | 10 ++++++++--
 tfchain/types/transactions/Standard.py |  8 ++++----
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/tfchain/types/IO.py b/tfchain/types/IO.py
index 564685d..2c1e872 100644
--- a/tfchain/types/IO.py
+++ b/tfchain/types/IO.py
@@ -5,6 +5,12 @@ from tfchain.types import FulfillmentTypes, ConditionTypes
 from tfchain.types.FulfillmentTypes import FulfillmentBaseClass, FulfillmentSingleSignature
 from tfchain.types.ConditionTypes import ConditionBaseClass, ConditionNil
 
+def _parentid_required(parentid):
+    if not parentid:
+        raise ValueError("an input is expected to reference its parent output")
+    return parentid
+
+
 class CoinInput(BaseDataTypeClass):
     """
     CoinIput class
@@ -22,7 +28,7 @@ class CoinInput(BaseDataTypeClass):
     @classmethod
     def from_json(cls, obj):
         return cls(
-            parentid=Hash.from_json(obj['parentid']),
+            parentid=Hash.from_json(_parentid_required(obj['parentid'])),
             fulfillment=FulfillmentTypes.from_json(obj['fulfillment']))
 
     @classmethod
@@ -209,7 +215,7 @@ class BlockstakeInput(BaseDataTypeClass):
     @classmethod
     def from_json(cls, obj):
         return cls(
-            parentid=Hash.from_json(obj['parentid']),
+            parentid=Hash.from_json(_parentid_required(obj['parentid'])),
             fulfillment=FulfillmentTypes.from_json(obj['fulfillment']))
 
     @classmethod
diff --git a/tfchain/types/transactions/Standard.py b/tfchain/types/transactions/Standard.py
index 7c491b8..2a38ac3 100644
--- a/tfchain/types/transactions/Standard.py
+++ b/tfchain/types/transactions/Standard.py
@@ -39,7 +39,7 @@ class TransactionV1(TransactionBaseClass):
             for legacy_ci_info in (txn_data['coininputs'] or []):
                 unlocker = legacy_ci_info.get('unlocker', {})
                 ci_info = {
-                    'parentid': legacy_ci_info.get('parentid', ''),
+                    'parentid': legacy_ci_info['parentid'],
                     'fulfillment': {
                         'type': 1,
                         'data': {
@@ -53,7 +53,7 @@ class TransactionV1(TransactionBaseClass):
         if 'coinoutputs' in txn_data:
             for legacy_co_info in (txn_data['coinoutputs'] or []):
                 co_info = {
-                    'value': legacy_co_info.get('value', '0'),
+                    'value': legacy_co_info['value'],
                     'condition': {
                         'type': 1,
                         'data': {
@@ -67,7 +67,7 @@ class TransactionV1(TransactionBaseClass):
             for legacy_bsi_info in (txn_data['blockstakeinputs'] or []):
                 unlocker = legacy_bsi_info.get('unlocker', {})
                 bsi_info = {
-                    'parentid': legacy_bsi_info.get('parentid', ''),
+                    'parentid': legacy_bsi_info['parentid'],
                     'fulfillment': {
                         'type': 1,
                         'data': {
@@ -81,7 +81,7 @@ class TransactionV1(TransactionBaseClass):
         if 'blockstakeoutputs' in txn_data:
             for legacy_bso_info in (txn_data['blockstakeoutputs'] or []):
                 bso_info = {
-                    'value': legacy_bso_info.get('value', '0'),
+                    'value': legacy_bso_info['value'],
                     'condition': {
                         'type': 1,
                         'data': {
-- 
2.43.0


From 6d2fab236bff0ee130cbc5e43bf8ac643aa5dad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:28 +0000
Subject: [PATCH 47/50] fix: an atomic swap condition is not read without its
 hashed secret

---
 tfchain/types/ConditionTypes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tfchain/types/ConditionTypes.py b/tfchain/types/ConditionTypes.py
index 0e5e20f..fe2b94c 100644
--- a/tfchain/types/ConditionTypes.py
+++ b/tfchain/types/ConditionTypes.py
@@ -603,6 +603,8 @@ class ConditionAtomicSwap(ConditionBaseClass):
     def from_json_data_object(self, data):
         self.sender = UnlockHash.from_json(data['sender'])
         self.receiver = UnlockHash.from_json(data['receiver'])
+        if not data['hashedsecret']:
+            raise ValueError("an atomic swap condition is expected to have a hashed secret")
         self.hashed_secret = AtomicSwapSecretHash(value=data['hashedsecret'])
         # an existing contract can have any lock time, it is the chain's to judge
         self._lock_time = OutputLock(value=int(data['timelock'])).value
-- 
2.43.0


From 3dea66c4ed27f8224c672945b23ef10c6ffad087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:28 +0000
Subject: [PATCH 48/50] fix: block stakes are not read without their value

---
 tfchain/types/PrimitiveTypes.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/tfchain/types/PrimitiveTypes.py b/tfchain/types/PrimitiveTypes.py
index 08697d1..d80adef 100644
--- a/tfchain/types/PrimitiveTypes.py
+++ b/tfchain/types/PrimitiveTypes.py
@@ -366,11 +366,9 @@ class Blockstake(BaseDataTypeClass):
 
     @classmethod
     def from_json(cls, obj):
-        if obj is not None and not isinstance(obj, str):
+        if not isinstance(obj, str):
             raise TypeError(
                 "block stake is expected to be a string when part of a JSON object, not type {}".format(type(obj)))
-        if obj == '':
-            obj = None
         return cls(value=obj)
 
     @property
-- 
2.43.0


From 0452874c1cd27570302e37d2d3fd19f384379fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:29 +0000
Subject: [PATCH 49/50] fix: a transaction is not read without its data,
 recipient, value or mint condition

---
 tfchain/types/transactions/Base.py    |  2 +-
 tfchain/types/transactions/ERC20.py   | 20 ++++----------------
 tfchain/types/transactions/Minting.py |  2 +-
 3 files changed, 6 insertions(+), 18 deletions(-)

diff --git a/tfchain/types/transactions/Base.py b/tfchain/types/transactions/Base.py
index 195b220..f6bcdf7 100644
--- a/tfchain/types/transactions/Base.py
+++ b/tfchain/types/transactions/Base.py
@@ -60,7 +60,7 @@ class TransactionBaseClass(ABC):
         if txn.version != tv:
             raise ValueError(
                 "transaction is expected to be of version {}, not version {}".format(txn.version, tv))
-        txn._from_json_data_object(obj.get('data', {}))
+        txn._from_json_data_object(obj['data'])
         return txn
 
     @property
diff --git a/tfchain/types/transactions/ERC20.py b/tfchain/types/transactions/ERC20.py
index d92aa50..9816ba7 100644
--- a/tfchain/types/transactions/ERC20.py
+++ b/tfchain/types/transactions/ERC20.py
@@ -191,15 +191,9 @@ class TransactionV208(TransactionBaseClass):
 
     def _from_json_data_object(self, data):
         # decode address
-        if 'address' in data:
-            self._address = ERC20Address.from_json(data['address'])
-        else:
-            self._address = None
+        self._address = ERC20Address.from_json(data['address'])
         # decode value
-        if 'value' in data:
-            self._value = Currency.from_json(data['value'])
-        else:
-            self._value = None
+        self._value = Currency.from_json(data['value'])
         # decode transaction fee
         if 'txfee' in data:
             self._transaction_fee = Currency.from_json(data['txfee'])
@@ -372,15 +366,9 @@ class TransactionV209(TransactionBaseClass):
 
     def _from_json_data_object(self, data):
         # decode address
-        if 'address' in data:
-            self._address = UnlockHash.from_json(data['address'])
-        else:
-            self._address = None
+        self._address = UnlockHash.from_json(data['address'])
         # decode value
-        if 'value' in data:
-            self._value = Currency.from_json(data['value'])
-        else:
-            self._value = None
+        self._value = Currency.from_json(data['value'])
         # decode transaction fee
         if 'txfee' in data:
             self._transaction_fee = Currency.from_json(data['txfee'])
diff --git a/tfchain/types/transactions/Minting.py b/tfchain/types/transactions/Minting.py
index a2a9b88..0ace2ee 100644
--- a/tfchain/types/transactions/Minting.py
+++ b/tfchain/types/transactions/Minting.py
@@ -168,7 +168,7 @@ class TransactionV128(TransactionBaseClass):
         self._nonce = BinaryData.from_json(
             data.get('nonce', ''), strencoding='base64')
         self._mint_condition = ConditionTypes.from_json(
-            data.get('mintcondition', {}))
+            data['mintcondition'])
         self._mint_fulfillment = FulfillmentTypes.from_json(
             data.get('mintfulfillment', {}))
         self._miner_fees = [Currency.from_json(
-- 
2.43.0


From 521d17b7d1ed0d608b585131cea2289cb1d5db2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:36:46 +0000
Subject: [PATCH 50/50] fix: an ERC20 conversion is not read without its
 address

---
 tfchain/types/transactions/ERC20.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tfchain/types/transactions/ERC20.py b/tfchain/types/transactions/ERC20.py
index 9816ba7..8aa372b 100644
--- a/tfchain/types/transactions/ERC20.py
+++ b/tfchain/types/transactions/ERC20.py
@@ -192,6 +192,8 @@ class TransactionV208(TransactionBaseClass):
     def _from_json_data_object(self, data):
         # decode address
         self._address = ERC20Address.from_json(data['address'])
+        if len(self._address) == 0:
+            raise ValueError("an ERC20 convert transaction is expected to have an address")
         # decode value
         self._value = Currency.from_json(data['value'])
         # decode transaction fee
-- 
2.43.0

