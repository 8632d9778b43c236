#!/usr/bin/env python3
"""Development aid (no check reads it): behaviour-preserving rewrites of the repository, to see that the checks stay quiet.
apply.py TREE [GROUP...]"""
import re
import sys

GROUPS = {}


def g(name):
    def d(f):
        GROUPS[name] = f
        return f
    return d


class T:
    def __init__(self, root):
        self.root = root

    def sub(self, f, *pairs):
        p = f'{self.root}/{f}'
        s = open(p).read()
        for old, new in pairs:
            assert s.count(old) == 1, (f, s.count(old), old)
            s = s.replace(old, new)
        open(p, 'w').write(s)


@g('token')
def token(t):
    t.sub('contracts/irc_token/irc_token.py',
          ("""        # Checks the sending value and balance.
        if _value < 0:
            revert("Transferring value cannot be less than zero")
        if self._balances[_from] < _value:
            revert("Out of balance")

        self._balances[_from] = self._balances[_from] - _value
        self._balances[_to] = self._balances[_to] + _value
""", """        available = self._balances[_from]
        problem = None
        if available < _value:
            problem = "Out of balance"
        if _value < 0:
            problem = "Negative"
        if problem is not None:
            revert(problem)
        self._move(_from, _to, _value)
"""), ("""    def _transfer(self, _from: Address, _to""", """    def _move(self, source: Address, target: Address, amount: int):
        for who, delta in ((source, -amount), (target, amount)):
            self._balances[who] += delta

    def _transfer(self, _from: Address, _to"""),
          ("        self._name.set(_name)\n        self._symbol.set(_symbol)\n        self._total_supply.set(total_supply)\n        self._decimals.set(_decimals)\n        self._balances[self.msg.sender] = total_supply",
           "        deployer = self.msg.sender\n        self._balances[deployer] = total_supply\n        for field, v in ((self._decimals, _decimals), (self._total_supply, total_supply), (self._symbol, _symbol), (self._name, _name)):\n            field.set(v)"))
    t.sub('contracts/flexible_token/flexible_token.py',
          ("""        self._balances[_to] += _amount
        total_supply = self._total_supply.get()
        self._total_supply.set(total_supply + _amount)

        self.Issuance(_amount)""", """        self._change(_to, _amount)
        self.Issuance(_amount)"""),
          ("""        self._balances[_from] -= _amount
        total_supply = self._total_supply.get()
        self._total_supply.set(total_supply - _amount)

        self.Destruction""", """        self._change(_from, -_amount)
        self.Destruction"""),
          ("""    @external
    def issue(self""", """    def _change(self, holder: Address, delta: int):
        self._total_supply.set(self._total_supply.get() + delta)
        self._balances[holder] = self._balances[holder] + delta

    @external
    def issue(self"""),
          ("""        require_positive_value(_amount)
        self.require_owner_only()
        require_valid_address(_to)
        require_not_this(self.address, _to)
""", """        require_not_this(self.address, _to)
        require_valid_address(_to)
        self.require_owner_only()
        require_positive_value(_amount)
"""), ("""        require(self.msg.sender == _from or self.msg.sender == self._owner.get(),
""", """        allowed = (_from, self.getOwner())
        require(self.msg.sender in allowed,
"""))
    t.sub('contracts/icx_token/icx_token.py',
          ("""        self._balances[self.msg.sender] += self.msg.value
        total_supply = self._total_supply.get()
        self._total_supply.set(total_supply + self.msg.value)

        self.Issuance(self.msg.value)
        self.Transfer(self.address, self.msg.sender, self.msg.value, b'None')""", """        self._mint(self.msg.sender, self.msg.value)

    def _mint(self, holder: Address, amount: int):
        self._total_supply.set(amount + self._total_supply.get())
        self._balances[holder] = amount + self._balances[holder]
        self.Issuance(amount)
        self.Transfer(self.address, holder, amount, b'None')"""),
          ("""        if self._balances[self.msg.sender] < _amount:
            revert("Out of balance")

        self._balances[self.msg.sender] -= _amount
        total_supply = self._total_supply.get()
        self._total_supply.set(total_supply - _amount)
""", """        holder = self.msg.sender
        rest = self._balances[holder] - _amount
        if rest < 0:
            revert("Out of balance")
        self._total_supply.set(self._total_supply.get() - _amount)
        self._balances[holder] = rest
"""))


@g('roles')
def roles(t):
    t.sub('contracts/utility/owned.py',
          ("""        prev_owner = self._owner.get()
        new_owner = self._new_owner.get()

        self.OwnerUpdate(prev_owner, new_owner)
        self._owner.set(new_owner)
        self._new_owner.set(ZERO_SCORE_ADDRESS)""", """        prev_owner, new_owner = self._owner.get(), self.msg.sender
        self._new_owner.set(ZERO_SCORE_ADDRESS)
        self._owner.set(new_owner)
        self.OwnerUpdate(prev_owner, new_owner)"""),
          ("""        self.require_owner_only()
        if _newOwner == self._owner.get():
            revert("New owner is already owner")
""", """        # only the owner comes that far
        self.require_owner_only()
        if _newOwner == self.msg.sender:
            revert("New owner is already owner")
"""))
    t.sub('contracts/utility/managed.py',
          ("""        require(self.msg.sender == self._manager.get() or self.msg.sender == self.getOwner(),
                "Invalid sender")""", """        sender = self.msg.sender
        for holder in (self.getOwner(), self.getManager()):
            if sender == holder:
                return
        revert("Invalid sender")"""),
          ("""        if self.msg.sender != self._new_manager.get():
            revert("You are not a new manager")
        prev_manager = self._manager.get()
        new_manager = self._new_manager.get()
""", """        new_manager = self._new_manager.get()
        require(self.msg.sender == new_manager, "You are not a new manager")
        prev_manager = self._manager.get()
"""))
    t.sub('contracts/utility/token_holder.py',
          ("""        self.require_owner_only()
        require_positive_value(_amount)
        require_not_this(self.address, _to)
        require_valid_address(_to)

        irc_token_score = self.create_interface_score(_token, ProxyScore(ABCIRCToken))
        irc_token_score.transfer(_to, _amount)""", """        require_valid_address(_to)
        require_not_this(self.address, _to)
        require_positive_value(_amount)
        self.require_owner_only()
        self._send(_token, _to, _amount)

    def _send(self, token: Address, to: Address, amount: int) -> None:
        self.create_interface_score(token, ProxyScore(ABCIRCToken)).transfer(to, amount)"""))
    t.sub('contracts/utility/utils.py',
          ("    if not condition:\n        revert(revert_message)", "    if condition:\n        return\n    revert(revert_message)"),
          ("""    if _x < _y:
        revert("Difference between two numbers should be positive")
    return _x - _y""", """    difference = _x - _y
    require(difference >= 0, "Difference between two numbers should be positive")
    return difference"""))


@g('registry')
def registry(t):
    t.sub('contracts/score_registry/score_registry.py',
          ("""        if self._score_address[_scoreName] is None:
            return ZERO_SCORE_ADDRESS
        else:
            return self._score_address[_scoreName]""", """        return self._score_address[_scoreName] or ZERO_SCORE_ADDRESS"""),
          ("""        require_valid_address(_scoreAddress)
        require(_scoreAddress.is_contract, "only SCORE address can be registered")
        require(_scoreName in self.SCORE_KEYS, f"_scoreName is not in the score key list: {_scoreName}")

        self._score_address[_scoreName] = _scoreAddress
        self.AddressUpdate(_scoreName, _scoreAddress)""", """        require(any(key == _scoreName for key in self.SCORE_KEYS), f"unknown: {_scoreName}")
        require_valid_address(_scoreAddress)
        require(_scoreAddress.is_contract, "only SCORE address can be registered")
        self._announce(_scoreName, _scoreAddress)

    def _announce(self, name: str, address: Address):
        self.AddressUpdate(name, address)
        self._score_address[name] = address"""))


@g('network')
def network(t):
    t.sub('contracts/network/network.py',
          ("""        amount = _amount
        from_token_address = converted_path[0]
        for i in range(1, len(converted_path), 2):
            to_token_address = converted_path[i + 1]
            # converted_path[i] is flexible token address
            flexible_token = self.create_interface_score(converted_path[i], FlexibleToken)
            converter = self.create_interface_score(flexible_token.getOwner(), Converter)

            amount = converter.getReturn(from_token_address, to_token_address, amount)["amount"]
            from_token_address = to_token_address
""", """        amount = _amount
        hops = zip(converted_path[0::2], converted_path[1::2], converted_path[2::2])
        for source, relay, target in hops:
            owner = self.create_interface_score(relay, FlexibleToken).getOwner()
            quote = self.create_interface_score(owner, Converter).getReturn(source, target, amount)
            amount = quote["amount"]
"""),
          ("""        converted_path = map(lambda address: address.strip(), path.split(","))
        return [Address.from_string(address) for address in converted_path]""", """        result = []
        for part in path.split(","):
            result.append(Address.from_string(part.strip()))
        return result"""),
          ("""        path_set = {address for i, address in enumerate(path) if i % 2 == 1}
        require(len(path_set) == path_len // 2, "do not support circular path")""", """        relays = path[1::2]
        for i, relay in enumerate(relays):
            require(relay not in relays[:i], "do not support circular path")"""),
          ("""        require_positive_value(_minReturn)
        require_valid_address(_for)
        require_not_this(self.address, _for)
        icx_amount = self.msg.value

        icx_token = converted_path[0]
        require(self._icx_tokens[icx_token], "wrong path, first address must be icx token")
""", """        icx_token, icx_amount = converted_path[0], self.msg.value
        require(self._icx_tokens[icx_token], "wrong path, first address must be icx token")
        require_not_this(self.address, _for)
        require_valid_address(_for)
        require_positive_value(_minReturn)
"""),
          ("""        if self._icx_tokens[to_token_address]:
            icx_token = self.create_interface_score(to_token_address, IcxToken)
            icx_token.withdrawTo(amount, _for)
        else:
            token = self.create_interface_score(to_token_address, IRCToken)
            token.transfer(_for, amount, b'None')

        return amount
""", """        self._pay(to_token_address, _for, amount)
        return amount

    def _pay(self, token: Address, to: Address, amount: int):
        if not self.getIcxTokenRegistered(token):
            self.create_interface_score(token, IRCToken).transfer(to, amount, b'None')
            return
        self.create_interface_score(token, IcxToken).withdrawTo(amount, to)
"""),
          ("""        data = dict()
        for i in range(1, len(path), 2):
            flexible_token_address = path[i]
            to_token_address = path[i+1]
""", """        i = -1
        while i + 2 < len(path):
            i += 2
            data = dict()
            to_token_address = path[i+1]
            flexible_token_address = path[i]
"""),
          ("""            amount_before_converting = to_token.balanceOf(self.address)
            data["toToken"] = str(to_token_address)
            data["minReturn"] = min_return if i == len(path)-2 else 1
            encoded""", """            last = to_token_address is path[-1] and i + 2 == len(path)
            data["minReturn"] = min_return if last else 1
            data["toToken"] = str(to_token_address)
            amount_before_converting = to_token.balanceOf(self.address)
            encoded"""))


@g('converter')
def converter(t):
    f = 'contracts/converter/converter.py'
    t.sub(f,
          ("""        # update virtual balance if relevant
        connector = self._connectors[connector_token]
        if connector.is_virtual_balance_enabled.get():
            connector.virtual_balance.set(connector.virtual_balance.get() + amount)

        flexible_token_address = self._token.get()
        flexible_token = self.create_interface_score(flexible_token_address, FlexibleToken)

        # issue new funds to the caller in the flexible token
        flexible_token.issue(trader, return_amount)
""", """        flexible_token_address = self._token.get()
        flexible_token = self.create_interface_score(flexible_token_address, FlexibleToken)
        connector = self._connectors[connector_token]
        self._take_in(connector, amount)
        # issue new funds to the caller in the flexible token
        flexible_token.issue(trader, return_amount)
"""),
          ("""        # update the source token virtual balance if relevant
        from_connector = self._connectors[from_token]
        if from_connector.is_virtual_balance_enabled.get():
            from_connector.virtual_balance.set(from_connector.virtual_balance.get() + amount)
        # ensure""", """        from_connector = self._connectors[from_token]
        self._take_in(from_connector, amount)
        # ensure"""),
          ("""    def _sell(self,""", """    @staticmethod
    def _take_in(connector, amount: int):
        if not connector.is_virtual_balance_enabled.get():
            return
        balance = connector.virtual_balance.get()
        connector.virtual_balance.set(balance + amount)

    def _sell(self,"""),
          ("""        token_supply = flexible_token.totalSupply()
        connector_balance = self.getConnectorBalance(connector_token)
        require(return_amount < connector_balance or
                (return_amount == connector_balance and amount == token_supply),
                'returning amount does not meet connector balance condition')

        # update""", """        connector_balance = self.getConnectorBalance(connector_token)
        if return_amount >= connector_balance:
            token_supply = flexible_token.totalSupply()
            require(return_amount == connector_balance, 'returning amount does not meet connector balance condition')
            require(amount == token_supply, 'returning amount does not meet connector balance condition')

        # update"""),
          ("""        self._connectors[_token].virtual_balance.set(0)
        self._connectors[_token].weight.set(_weight)
        self._connectors[_token].is_virtual_balance_enabled.set(_enableVirtualBalance)
        self._connectors[_token].is_purchase_enabled.set(True)
        self._connectors[_token].is_set.set(True)
        self._connector_tokens.put(_token)

        self._total_connector_weight.set(self._total_connector_weight.get() + _weight)""", """        total = self._total_connector_weight.get() + _weight
        self._total_connector_weight.set(total)
        connector = self._connectors[_token]
        connector.is_set.set(True)
        connector.is_purchase_enabled.set(True)
        connector.is_virtual_balance_enabled.set(_enableVirtualBalance)
        connector.weight.set(_weight)
        connector.virtual_balance.set(0)
        self._connector_tokens.put(_token)"""),
          ("""        self.require_owner_only()
        self._require_inactive()
        require_valid_address(_token)
        require_not_this(self.address, _token)
        self._require_valid_connector_weight(_weight)
""", """        require_valid_address(_token)
        require_not_this(self.address, _token)
        self._require_valid_connector_weight(_weight)
        self.require_owner_only()
        self._require_inactive()
"""),
          ("""        # set the previous registry as current registry and current registry as newRegistry
        self._prev_registry.set(self._registry.get())
        self._registry.set(new_registry)""", """        previous = self._registry.get()
        self._registry.set(new_registry)
        self._prev_registry.set(previous)"""),
          ("""        if self._conversions_enabled.get() == _disable:
            enable = not _disable
            self._conversions_enabled.set(enable)
            self.ConversionsEnable(enable)""", """        enable = not _disable
        if self._conversions_enabled.get() == enable:
            return
        self.ConversionsEnable(enable)
        self._conversions_enabled.set(enable)"""),
          ("""        self.ConversionFeeUpdate(self._conversion_fee.get(), _conversionFee)
        self._conversion_fee.set(_conversionFee)""", """        before = self._conversion_fee.get()
        self._conversion_fee.set(_conversionFee)
        self.ConversionFeeUpdate(before, _conversionFee)"""),
          ("""        require(not self._is_active() or not self._connectors[_token].is_set.get(),
                'withdrawing token should be inactive or not a connector token')
""", """        if self._connectors[_token].is_set.get():
            require(not self._is_active(), 'withdrawing token should be inactive or not a connector token')
"""),
          ("""        return {
            'virtualBalance': connector.virtual_balance.get(),
            'weight': connector.weight.get(),
            'isVirtualBalanceEnabled': connector.is_virtual_balance_enabled.get(),
            'isPurchaseEnabled': connector.is_purchase_enabled.get(),
            'isSet': connector.is_set.get(),
        } if connector.is_set.get() else {}""", """        result = {}
        if not connector.is_set.get():
            return result
        result['isSet'] = True
        result['isPurchaseEnabled'] = connector.is_purchase_enabled.get()
        result['isVirtualBalanceEnabled'] = connector.is_virtual_balance_enabled.get()
        result['weight'] = connector.weight.get()
        result['virtualBalance'] = connector.virtual_balance.get()
        return result"""),
          ("""        final_ratio = (self._MAX_CONVERSION_FEE - self._conversion_fee.get())
        return _amount * final_ratio ** _magnitude // self._MAX_CONVERSION_FEE ** _magnitude""", """        whole = self._MAX_CONVERSION_FEE
        kept = whole - self._conversion_fee.get()
        return _amount * kept ** _magnitude // whole ** _magnitude"""),
          ("""        registry = self.create_interface_score(self._registry.get(), ScoreRegistry)
        new_registry = registry.getAddress(ScoreRegistry.SCORE_REGISTRY)

        # if the new registry hasn't changed or is the zero address, revert
        require_valid_address(new_registry)
        require(new_registry != self._registry.get(),
""", """        new_registry = self._ask_registry(ScoreRegistry.SCORE_REGISTRY)

        # if the new registry hasn't changed or is the zero address, revert
        require_valid_address(new_registry)
        require(self._registry.get() != new_registry,
"""),
          ("""            registry = self.create_interface_score(self._registry.get(), ScoreRegistry)
            network = registry.getAddress(ScoreRegistry.NETWORK)
            require(_from == network,""", """            require(_from == self._ask_registry(ScoreRegistry.NETWORK),"""),
          ("""    def _convert(self,
""", """    def _ask_registry(self, name: str):
        return self.create_interface_score(self._registry.get(), ScoreRegistry).getAddress(name)

    def _convert(self,
"""),
          ("""        if key not in self._items:
            sub_db""", """        found = self._items.get(key)
        if found is None:
            sub_db"""))


@g('quotes')
def quotes(t):
    """the getters of quotes ask in another order"""
    f = 'contracts/converter/converter.py'
    t.sub(f,
          ("""        self._require_active()
        self._require_valid_connector(connector_token)

        connector = self._connectors[connector_token]

        flexible_token = self.create_interface_score(self._token.get(), FlexibleToken)

        token_supply = flexible_token.totalSupply()
        connector_balance = self.getConnectorBalance(connector_token)

        calculated_amount = formula.calculate_sale_return(
            token_supply, connector_balance, connector.weight.get(), amount)
""", """        self._require_valid_connector(connector_token)
        self._require_active()
        connector = self._connectors[connector_token]
        connector_balance = self.getConnectorBalance(connector_token)
        token_supply = self.create_interface_score(self._token.get(), FlexibleToken).totalSupply()
        calculated_amount = formula.calculate_sale_return(
            token_supply, connector_balance, connector.weight.get(), amount)
"""),
          ("""        flexible_token = self._token.get()
        if _toToken == flexible_token:
            return self.get_purchase_return(_fromToken, _amount)
        elif _fromToken == flexible_token:
            return self.get_sale_return(_toToken, _amount)

        # conversion between 2 connectors
        return self.get_cross_connector_return(_fromToken, _toToken, _amount)""", """        flexible_token = self._token.get()
        if flexible_token not in (_fromToken, _toToken):
            return self.get_cross_connector_return(_fromToken, _toToken, _amount)
        if _fromToken == flexible_token:
            return self.get_sale_return(_toToken, _amount)
        return self.get_purchase_return(_fromToken, _amount)"""))


@g('formula')
def formula(t):
    f = 'contracts/formula/fixed_map_formula.py'
    s = open(f'{t.root}/{f}').read()
    # the series of the general exponential as a loop
    i = s.index("        # add x^02 * (33! / 02!)")
    j = s.index("        return res //", i) if "        return res //" in s[i:] else None
    cs = re.findall(r'res \+= xi \* (0x[0-9a-f]+)', s[i:j])
    s = s[:i] + '        for c in (' + ',\n                  '.join(cs) + '):\n            xi = xi * x >> precision\n            res = res + c * xi\n' + s[j:]
    # the ladder of the optimal logarithm as a loop
    i = s.index("        res = 0\n        # add 1 / 2^1\n")
    j = s.index("        z = y = x - self._FIXED_1")
    st = re.findall(r'x >= (0x[0-9a-f]+):\s+res \+= (0x[0-9a-f]+)', s[i:j])
    s = s[:i] + '        res = 0\n        for step, term in (' + ',\n                           '.join(f'({a}, {b})' for a, b in st) + \
        '):\n            if step <= x:\n                x = self._FIXED_1 * x // step\n                res += term\n\n' + s[j:]
    for a, b in (("""            while n > 1:
                n >>= 1
                res += 1""", """            res = max(n.bit_length() - 1, 0)"""),
                 ("""        while lo + 1 < hi:
            mid = (lo + hi) // 2
            if self._max_exp_array[mid] >= x:
                lo = mid
            else:
                hi = mid

        if self._max_exp_array[hi] >= x:
            return hi
        if self._max_exp_array[lo] >= x:
            return lo

        return 0""", """        position = hi
        while position >= lo:
            if x <= self._max_exp_array[position]:
                return position
            position -= 1
        return 0"""),
                 ("""        temp_1 = to_connector_balance * result
        temp_2 = to_connector_balance << precision
        return (temp_1 - temp_2) // result""", """        return to_connector_balance * (result - (1 << precision)) // result""")):
        assert s.count(a) == 1, a
        s = s.replace(a, b)
    open(f'{t.root}/{f}', 'w').write(s)


@g('tools')
def tools(t):
    t.sub('contract_generator/builder.py',
          ("""            for filename in files:
                if file_path.find('__pycache__') != -1:
                    continue

                cur_file_path""", """            if '__pycache__' in file_path:
                continue

            for filename in sorted(files):
                cur_file_path"""),
          ("""        for dependency in dependencies:
            cur_file_path = path.join(self._contracts_path, dependency)
            new_file_path = path.join(contract.name, dependency)
            path_tuple = (cur_file_path, new_file_path)
            contract.path_list.append(path_tuple)""", """        contract.path_list.extend((path.join(self._contracts_path, d), path.join(contract.name, d)) for d in dependencies)"""),
          ("""            contract = Contract(name=c, path_list=[])
            self._append_contract_on_path_list(contract)
            dependencies = config[c]
            if config[c][-1] == "NOTICE":
                self._append_notice_on_path_list(contract)
                dependencies = config[c][:-1]
            self._append_dependencies_on_path_list(contract, dependencies)
""", """            contract = Contract(name=c, path_list=[])
            files = list(config[c])
            notice = files[-1] == "NOTICE" and files.pop()
            self._append_dependencies_on_path_list(contract, files)
            self._append_contract_on_path_list(contract)
            if notice:
                self._append_notice_on_path_list(contract)
"""))
    t.sub('contract_generator/writer.py',
          ("""            for path_tuple in contract.path_list:
                cur_file_path = path_tuple[0]
                new_file_path = path.join(self.output_root_dir, path_tuple[1])
                makedirs(path.dirname(new_file_path), exist_ok=True)
                copy(cur_file_path, new_file_path)
""", """            self._copy_all(contract.path_list)

    def _copy_all(self, path_list: list) -> None:
        for source, name in path_list:
            target = path.join(self.output_root_dir, name)
            makedirs(path.dirname(target), exist_ok=True)
            copy(source, target)
"""),
          ("""        if compression_as_str == 'ZIP_STORED':
            return ZIP_STORED
        elif compression_as_str == 'ZIP_DEFLATED':
            return ZIP_DEFLATED
        elif compression_as_str == 'ZIP_BZIP2':
            return ZIP_BZIP2
        elif compression_as_str == 'ZIP_LZMA':
            return ZIP_LZMA
        else:
            raise ValueError("{0} is wrong compression type".format(compression_as_str))""", """        known = dict(ZIP_STORED=ZIP_STORED, ZIP_DEFLATED=ZIP_DEFLATED, ZIP_BZIP2=ZIP_BZIP2, ZIP_LZMA=ZIP_LZMA)
        try:
            return known[compression_as_str]
        except KeyError:
            raise ValueError("{0} is wrong compression type".format(compression_as_str))"""))
    t.sub('contracts/formula/auto_generate/print_function_optimal_log.py',
          ("""    print('        # add {} / 2^{}'.format(LOG_MAX_HI_TERM_VAL, str3))
""", """    print(f'        # add {LOG_MAX_HI_TERM_VAL} / 2^{str3}')
"""))


@g('storage')
def storage(t):
    t.sub('contracts/utility/storage.py',
          ("""        shadow = f'_{item}'
        attr = getattr(self, shadow, None)
        if isinstance(attr, VarDB):
            attr.set(value)
        else:
            super().__setattr__(item, value)""", """        field = getattr(self, '_' + item, None)
        if not isinstance(field, VarDB):
            return super().__setattr__(item, value)
        field.set(value)"""),
          ("""        if not item.startswith('_'):
            shadow = f'_{item}'
            if hasattr(self, shadow):
                # If the shadow object of given attribute exists returns it
                # and if it is instance of VarDB, returns real value
                attr = getattr(self, shadow)
                return attr.get() if isinstance(attr, VarDB) else attr
        return super().__getattribute__(item)""", """        if item[:1] != '_':
            attr = getattr(self, f'_{item}', self)
            if attr is not self:
                return attr.get() if isinstance(attr, VarDB) else attr
        return super().__getattribute__(item)"""))
    t.sub('contracts/utility/proxy_score.py',
          ("""        attributes = dir(abc_class)
        for attribute_name in attributes:
            attribute = getattr(abc_class, attribute_name)
            if callable(attribute) \\
                    and hasattr(attribute, '__isabstractmethod__') \\
                    and attribute.__isabstractmethod__:
                interface_functions[attribute.__name__] = mcs._get_interface_function(attribute)
""", """        members = [getattr(abc_class, name) for name in dir(abc_class)]
        for member in filter(callable, members):
            if getattr(member, '__isabstractmethod__', False):
                interface_functions[member.__name__] = mcs._get_interface_function(member)
"""))


if __name__ == '__main__':
    t = T(sys.argv[1])
    for name in sys.argv[2:] or GROUPS:
        GROUPS[name](t)
