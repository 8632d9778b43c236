From 155b2add7b7a9b520a11e7fa059b71f9c3178049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:51 +0000
Subject: [PATCH 1/9] fix: price a purchase against the virtual balance as
 quoted

When the source connector used a virtual balance, the deposited amount was
subtracted from it although it had not been added yet, so the conversion was
executed at a better price than getReturn() quotes (or reverted when the amount
was not below the virtual balance).
---
 contracts/converter/converter.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/contracts/converter/converter.py b/contracts/converter/converter.py
index 197ff2d..b52030a 100644
--- a/contracts/converter/converter.py
+++ b/contracts/converter/converter.py
@@ -448,7 +448,8 @@ class Converter(ABCConverter, FlexibleTokenController, Managed):
 
         token_supply = flexible_token.totalSupply()
         connector_balance = self.getConnectorBalance(connector_token)
-        if from_conversion:
+        # the deposit is already included in the actual balance, but not in the virtual one
+        if from_conversion and not connector.is_virtual_balance_enabled.get():
             connector_balance -= amount
 
         calculated_amount = formula.calculate_purchase_return(
@@ -502,7 +503,8 @@ class Converter(ABCConverter, FlexibleTokenController, Managed):
         require(to_connector.is_purchase_enabled.get(), 'required purchase enabled')
 
         from_connector_balance = self.getConnectorBalance(from_token)
-        if from_conversion:
+        # the deposit is already included in the actual balance, but not in the virtual one
+        if from_conversion and not from_connector.is_virtual_balance_enabled.get():
             from_connector_balance -= amount
         to_connector_balance = self.getConnectorBalance(to_token)
 
-- 
2.43.0


From 42273ec6997f5f9460dc4d3680bbf821efd90f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:51 +0000
Subject: [PATCH 2/9] fix: let the manager deposit connector tokens while the
 converter is inactive

getManager was compared as a bound method, so a deposit from the manager was
never recognized.
---
 contracts/converter/converter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contracts/converter/converter.py b/contracts/converter/converter.py
index b52030a..bb38275 100644
--- a/contracts/converter/converter.py
+++ b/contracts/converter/converter.py
@@ -228,7 +228,7 @@ class Converter(ABCConverter, FlexibleTokenController, Managed):
         require_positive_value(_value)
         from_token = self.msg.sender
 
-        if (_from == self.getOwner() or _from == self.getManager) \
+        if (_from == self.getOwner() or _from == self.getManager()) \
                 and self._connectors[from_token].is_set.get() \
                 and not self._is_active():
             # If the token sender is the owner and sent token is a connector token, receives tokens
-- 
2.43.0


From 19875c4b64f27c9ac55b1becf72977bcd29504c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:51 +0000
Subject: [PATCH 3/9] fix: check the depletion of a virtual target balance
 before reducing it

A cross connector conversion compared the return amount with the virtual balance
it had already been subtracted from, refusing every quoted trade that returns
half of the virtual balance or more.
---
 contracts/converter/converter.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/contracts/converter/converter.py b/contracts/converter/converter.py
index bb38275..1681d34 100644
--- a/contracts/converter/converter.py
+++ b/contracts/converter/converter.py
@@ -401,15 +401,15 @@ class Converter(ABCConverter, FlexibleTokenController, Managed):
         from_connector = self._connectors[from_token]
         if from_connector.is_virtual_balance_enabled.get():
             from_connector.virtual_balance.set(from_connector.virtual_balance.get() + amount)
+        # ensure that the trade won't deplete the connector balance
+        to_connector_balance = self.getConnectorBalance(to_token)
+        require(return_amount < to_connector_balance,
+                'returning amount does not meet connector balance condition')
         # update the target token virtual balance if relevant
         to_connector = self._connectors[to_token]
         if to_connector.is_virtual_balance_enabled.get():
             to_connector.virtual_balance.set(
                 safe_sub(to_connector.virtual_balance.get(), return_amount))
-        # ensure that the trade won't deplete the connector balance
-        to_connector_balance = self.getConnectorBalance(to_token)
-        require(return_amount < to_connector_balance,
-                'returning amount does not meet connector balance condition')
         # transfer funds to the caller in the to connector token
         # the transfer might fail if the actual connector balance is smaller than
         # the virtual balance
-- 
2.43.0


From 5cb35008646222323e6319fda1c3e836b9e7aaa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:51 +0000
Subject: [PATCH 4/9] fix: make the deployer the initial manager of a converter

Managed.on_install() was never invoked, so a deployed converter had no manager.
---
 contracts/converter/converter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/contracts/converter/converter.py b/contracts/converter/converter.py
index 1681d34..2b2d0ed 100644
--- a/contracts/converter/converter.py
+++ b/contracts/converter/converter.py
@@ -194,6 +194,7 @@ class Converter(ABCConverter, FlexibleTokenController, Managed):
         require_valid_address(_registry)
         self._require_valid_max_conversion_fee(_maxConversionFee)
         FlexibleTokenController.on_install(self, _token)
+        Managed.on_install(self)
 
         self._allow_registry_update.set(True)
         self._registry.set(_registry)
-- 
2.43.0


From 4b7ea8ab1eb1ff958466ef6fb1eb060332b8d71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:07 +0000
Subject: [PATCH 5/9] fix: cancel a conversion whose result is below the
 minimum return

The minimum return was only passed on to the converter of the last hop. When the
flexible token of a hop is not owned by a converter that enforces it (an account,
for example), the source tokens were spent although less than the minimum return,
or nothing at all, was handed to the beneficiary.
---
 contracts/network/network.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/contracts/network/network.py b/contracts/network/network.py
index d4d2033..b10f68a 100644
--- a/contracts/network/network.py
+++ b/contracts/network/network.py
@@ -241,6 +241,7 @@ class Network(TokenHolder):
         :return: tokens issued in return
         """
         (to_token_address, amount) = self._convert_by_path(path, amount, min_return, _for)
+        require(amount >= min_return, "returning amount less than minimum requested amount")
 
         if self._icx_tokens[to_token_address]:
             icx_token = self.create_interface_score(to_token_address, IcxToken)
-- 
2.43.0


From 06b0b62ee3f426528c8f01b00ab9ecd21a3723d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:09 +0000
Subject: [PATCH 6/9] fix: place packaged files by their path below the
 contracts directory

Replacing every occurrence of the contracts path garbled the names of packaged
files when that path also occurs inside them (a directory called 'c' or '.')
or ends with a separator.
---
 contract_generator/builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contract_generator/builder.py b/contract_generator/builder.py
index bfa65df..e2fe5ab 100644
--- a/contract_generator/builder.py
+++ b/contract_generator/builder.py
@@ -75,7 +75,7 @@ class Builder:
                 if filename == 'package.json':
                     new_file_path = path.join(contract.name, filename)
                 else:
-                    new_file_path = cur_file_path.replace(self._contracts_path, str(contract.name))
+                    new_file_path = path.join(contract.name, path.relpath(cur_file_path, self._contracts_path))
                 path_tuple = (cur_file_path, new_file_path)
                 contract.path_list.append(path_tuple)
 
-- 
2.43.0


From 0dccee83d5e5ac7b6eaff0abe74192230cc4949f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:09 +0000
Subject: [PATCH 7/9] fix: package the project's own NOTICE whatever the
 current directory is

build.py can be started from anywhere, but the NOTICE was looked up in the
current directory: the build failed there, or picked up somebody else's file.
---
 contract_generator/builder.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/contract_generator/builder.py b/contract_generator/builder.py
index e2fe5ab..f54d4b8 100644
--- a/contract_generator/builder.py
+++ b/contract_generator/builder.py
@@ -92,12 +92,12 @@ class Builder:
             path_tuple = (cur_file_path, new_file_path)
             contract.path_list.append(path_tuple)
 
-    @staticmethod
-    def _append_notice_on_path_list(contract) -> None:
+    def _append_notice_on_path_list(self, contract) -> None:
         """Appends  the NOTICE file on path list as a tuple
 
         :param contract: contact in namedtuple
         :return: None
         """
-        notice_path_tuple = 'NOTICE', path.join(contract.name, 'NOTICE')
+        project_path = path.dirname(path.abspath(self._contracts_path))
+        notice_path_tuple = path.join(project_path, 'NOTICE'), path.join(contract.name, 'NOTICE')
         contract.path_list.append(notice_path_tuple)
-- 
2.43.0


From cca8cc1088d1282bdee9100156f8cbeb986090a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:51 +0000
Subject: [PATCH 8/9] fix: leave everything below a contract's tests directory
 out of its package

The walk skipped the files directly in tests but went on into its
subdirectories, so tests/fixtures/x.py was packaged.
---
 contract_generator/builder.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/contract_generator/builder.py b/contract_generator/builder.py
index f54d4b8..8dd18b3 100644
--- a/contract_generator/builder.py
+++ b/contract_generator/builder.py
@@ -65,6 +65,7 @@ class Builder:
         for file_path, dirs, files in walk(cur_contract_dir):
             # Skips for tests dir because of only for testing
             if path.basename(file_path) == 'tests':
+                dirs.clear()
                 continue
 
             for filename in files:
-- 
2.43.0


From cceb27d9a4f2349437ad8366b2ef6ee09e3b66fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:56 +0000
Subject: [PATCH 9/9] fix: hand out a copy of the list of score names

A contract that asked for getScoreIds was given the registry's own list and could change which names the registry accepts and lists.
---
 contracts/score_registry/score_registry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contracts/score_registry/score_registry.py b/contracts/score_registry/score_registry.py
index b4880d3..33a0854 100644
--- a/contracts/score_registry/score_registry.py
+++ b/contracts/score_registry/score_registry.py
@@ -48,7 +48,7 @@ class ScoreRegistry(Owned, ABCScoreRegistry):
 
     @external(readonly=True)
     def getScoreIds(self) -> list:
-        return self.SCORE_KEYS
+        return list(self.SCORE_KEYS)
 
     @external
     def registerAddress(self, _scoreName: str, _scoreAddress: Address):
-- 
2.43.0

