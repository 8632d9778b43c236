#!/usr/bin/env python3
"""Development aid (no check reads it): a second set of behaviour-preserving rewrites, in other places and another style.
apply2.py TREE [GROUP...]"""
import sys

from apply import T

GROUPS = {}


def g(f):
    GROUPS[f.__name__] = f
    return f


@g
def token(t):
    t.sub('contracts/irc_token/irc_token.py',
          ("""        if _data is None:
            _data = b'None'
        self._transfer(self.msg.sender, _to, _value, _data)
""", """        self._transfer(_from=self.msg.sender, _to=_to, _value=_value, _data=b'None' if _data is None else _data)
"""),
          ("""        self._balances[_from] = self._balances[_from] - _value
        self._balances[_to] = self._balances[_to] + _value

        if _to.is_contract:
            # If the recipient is SCORE,
            #   then calls `tokenFallback` to hand over control.
            recipient_score = self.create_interface_score(_to, TokenFallbackInterface)
            recipient_score.tokenFallback(_from, _value, _data)
""", """        if _from != _to and _value != 0:
            self._balances[_to] += _value
            self._balances[_from] -= _value

        if _to.is_contract:
            self._hand_over(_to, _from, _value, _data)
"""), ("""    def _transfer(self, _from""", """    def _hand_over(self, recipient: Address, *args) -> None:
        self.create_interface_score(recipient, TokenFallbackInterface).tokenFallback(*args)

    def _transfer(self, _from"""),
          ("""        total_supply = _initialSupply * 10 ** _decimals
""", """        unit = 1
        for _ in range(min(_decimals, 64)):
            unit *= 10
        unit *= 10 ** (_decimals - min(_decimals, 64))
        total_supply = unit * _initialSupply
"""))
    t.sub('contracts/flexible_token/flexible_token.py',
          ("""        require_positive_value(_amount)
        require(self._balances[_from] >= _amount, "Out of balance")
        require(self.msg.sender == _from or self.msg.sender == self._owner.get(),
                "You are not token holder or flexible token owner")

        self._balances[_from] -= _amount
        total_supply = self._total_supply.get()
        self._total_supply.set(total_supply - _amount)
""", """        sender = self.msg.sender
        if sender != _from:
            require(sender == self._owner.get(), "You are not token holder or flexible token owner")
        balance = self._balances[_from]
        if not 0 < _amount <= balance:
            revert("Out of balance")
        self._total_supply.set(self._total_supply.get() - _amount)
        self._balances[_from] = balance - _amount
"""),
          ("""        self.require_owner_only()
        self._transfer_possibility.set(not _disable)""", """        self.require_owner_only()
        possible = self._transfer_possibility.get()
        if possible == _disable:
            self._transfer_possibility.set(not possible)"""),
          ("""        self.require_transfer_allowed()
        IRCToken.transfer(self, _to, _value, _data)""", """        if not self.getTransferPossibility():
            revert("This flexible token cannot transfer")
        super().transfer(_to, _value, _data)"""))
    t.sub('contracts/icx_token/icx_token.py',
          ("""    def fallback(self):
        self.deposit()""", """    def fallback(self):
        self._credit()

    def _credit(self):
        depositor, paid = self.msg.sender, self.msg.value
        self._balances[depositor] += paid
        self._total_supply.set(self._total_supply.get() + paid)
        self.Issuance(paid)
        self.Transfer(self.address, depositor, paid, b'None')"""),
          ("""        self._balances[self.msg.sender] += self.msg.value
        total_supply = self._total_supply.get()
        self._total_supply.set(total_supply + self.msg.value)

        self.Issuance(self.msg.value)
        self.Transfer(self.address, self.msg.sender, self.msg.value, b'None')
""", """        self._credit()
"""),
          ("""        self.withdrawTo(_amount, self.msg.sender)
""", """        self._pay_out(_amount, self.msg.sender)

    def _pay_out(self, amount: int, to: Address):
        require_positive_value(amount)
        sender = self.msg.sender
        remainder = safe_sub(self._balances[sender], amount)
        self._balances[sender] = remainder
        self._total_supply.set(safe_sub(self._total_supply.get(), amount))
        self.icx.transfer(amount=amount, addr_to=to)
        self.Destruction(amount)
"""),
          ("""        require_positive_value(_amount)
        if self._balances[self.msg.sender] < _amount:
            revert("Out of balance")

        self._balances[self.msg.sender] -= _amount
        total_supply = self._total_supply.get()
        self._total_supply.set(total_supply - _amount)
        self.icx.transfer(_to, _amount)

        self.Destruction(_amount)
""", """        self._pay_out(_amount, _to)
"""))


@g
def roles(t):
    t.sub('contracts/utility/owned.py',
          ("""        if self.msg.sender != self._owner.get():
            revert("Invalid owner")
""", """        if not self._is_owner(self.msg.sender):
            revert("Invalid owner")

    def _is_owner(self, who: Address) -> bool:
        return who == self._owner.get()
"""),
          ("""        if _newOwner == self._owner.get():
            revert("New owner is already owner")
""", """        if self._is_owner(_newOwner):
            revert("New owner is already owner")
"""))
    t.sub('contracts/utility/managed.py',
          ("""        self.require_owner_or_manager_only()
        require(self._manager.get() != _newManager, "New manager is already manager")
""", """        require(self.getManager() != _newManager, "New manager is already manager")
        self.require_owner_or_manager_only()
"""),
          ("""        self.ManagerUpdate(prev_manager, new_manager)
        self._manager.set(new_manager)
        self._new_manager.set(ZERO_SCORE_ADDRESS)""", """        self._manager.set(new_manager)
        self._new_manager.set(ZERO_SCORE_ADDRESS)
        self.ManagerUpdate(_prevManager=prev_manager, _newManager=new_manager)"""))
    t.sub('contracts/utility/flexible_token_controller.py',
          ("""        flexible_token = self.create_interface_score(self._token.get(), FlexibleToken)
        return flexible_token.getOwner() == self.address
""", """        return self._flexible().getOwner() == self.address

    def _flexible(self):
        return self.create_interface_score(self.getToken(), FlexibleToken)
"""),
          ("""        flexible_token = self.create_interface_score(self._token.get(), FlexibleToken)
        flexible_token.transferOwnerShip(_newOwner)""", """        self._flexible().transferOwnerShip(_newOwner=_newOwner)"""),
          ("""        flexible_token = self.create_interface_score(self._token.get(), FlexibleToken)
        flexible_token.disableTransfer(_disable)""", """        self._flexible().disableTransfer(_disable)"""),
          ("""        flexible_token = self.create_interface_score(self._token.get(), FlexibleToken)
        flexible_token.withdrawTokens(_token, _to, _amount)""", """        self._flexible().withdrawTokens(_token, _amount=_amount, _to=_to)"""))
    t.sub('contracts/utility/token_holder.py',
          ("""        irc_token_score.transfer(_to, _amount)""", """        irc_token_score.transfer(_to=_to, _value=_amount)"""))
    t.sub('contracts/utility/utils.py',
          ("    require(score_address != address, \"\")", "    if score_address == address:\n        revert(\"this address\")"),
          ("    return address is not None and address != ZERO_SCORE_ADDRESS", "    return address not in (None, ZERO_SCORE_ADDRESS)"))


@g
def registry(t):
    t.sub('contracts/score_registry/score_registry.py',
          ("""        if self._score_address[_scoreName] is None:
            return ZERO_SCORE_ADDRESS
        else:
            return self._score_address[_scoreName]""", """        address = self._score_address[_scoreName]
        return ZERO_SCORE_ADDRESS if address is None else address"""),
          ("""        self.require_owner_only()
        require(self._score_address[_scoreName] is not None, "this score is not registered")

        del self._score_address[_scoreName]
        self.AddressUpdate(_scoreName, ZERO_SCORE_ADDRESS)""", """        registered = self._score_address[_scoreName]
        require(registered is not None, "this score is not registered")
        self.require_owner_only()
        self.AddressUpdate(_scoreName, ZERO_SCORE_ADDRESS)
        self._score_address.remove(_scoreName)"""))


@g
def network(t):
    t.sub('contracts/network/network.py',
          ("""        return self.convertFor(_path, _minReturn, self.msg.sender)
""", """        return self._convert_icx(_path, _minReturn, self.msg.sender)
"""),
          ("""        converted_path = self._convert_path(_path)
        self._require_valid_path(converted_path)
        require_positive_value(_minReturn)
""", """        return self._convert_icx(_path, _minReturn, _for)

    def _convert_icx(self, _path: str, _minReturn: int, _for: Address):
        converted_path = self._convert_path(_path)
        self._require_valid_path(converted_path)
        require_positive_value(_minReturn)
"""),
          ("""        require(dict_data["path"][0] == self.msg.sender, "wrong access, only token can call this method")

        require_positive_value(dict_data["minReturn"])
        require_valid_address(dict_data["for"])
        self._require_valid_path(dict_data["path"])

        self._convert_for_internal(dict_data["path"], _value, dict_data["minReturn"], dict_data["for"])
""", """        path, minimum, beneficiary = (dict_data[key] for key in ("path", "minReturn", "for"))
        self._require_valid_path(path)
        require_positive_value(minimum)
        require_valid_address(beneficiary)
        require(path[0] == self.msg.sender, "wrong access, only token can call this method")
        self._convert_for_internal(path=path, amount=_value, min_return=minimum, _for=beneficiary)
"""),
          ("""        (to_token_address, amount) = self._convert_by_path(path, amount, min_return, _for)
        require""", """        for position in range(1, len(path), 2):
            source, relay, target = path[position - 1:position + 2]
            amount = self._hop(source, relay, target, amount, 1 if position + 2 < len(path) else min_return)
        to_token_address = path[-1]
        require"""),
          ("""    def _convert_by_path(self,""", """    def _hop(self, source: Address, relay: Address, target: Address, amount: int, minimum: int) -> int:
        target_token = self.create_interface_score(target, IRCToken)
        before = target_token.balanceOf(self.address)
        converter = self.create_interface_score(relay, FlexibleToken).getOwner()
        request = json_dumps({"toToken": str(target), "minReturn": minimum})
        self.create_interface_score(source, IRCToken).transfer(converter, amount, request.encode())
        return target_token.balanceOf(self.address) - before

    def _convert_by_path(self,"""),
          ("""        self.require_owner_only()
        require_valid_address(_icxToken)
        require_not_this(self.address, _icxToken)

        self._icx_tokens[_icxToken] = _register""", """        require_valid_address(_icxToken)
        require_not_this(self.address, _icxToken)
        self.require_owner_only()
        if _register:
            self._icx_tokens[_icxToken] = True
        elif self._icx_tokens[_icxToken]:
            del self._icx_tokens[_icxToken]"""),
          ("""        if "for" not in dict_data or dict_data["for"] is None:
            result_dict_data["for"] = token_sender_address
        else:
            result_dict_data["for"] = Address.from_string(dict_data["for"])
        return result_dict_data""", """        beneficiary = dict_data.get("for")
        result_dict_data["for"] = token_sender_address if beneficiary is None else Address.from_string(beneficiary)
        return result_dict_data"""))


@g
def converter(t):
    f = 'contracts/converter/converter.py'
    t.sub(f,
          ("""            # noinspection PyBroadException
            try:
                conversion_params = json_loads(_data.decode("utf-8"))
                to_token = Address.from_string(conversion_params['toToken'])
                min_return = conversion_params['minReturn']
                return self._convert(_from, from_token, to_token, _value, min_return)
            except Exception as e:
                revert(str(e))
""", """            try:
                conversion_params = json_loads(_data.decode("utf-8"))
                min_return = conversion_params['minReturn']
                to_token = Address.from_string(conversion_params['toToken'])
            except Exception as e:
                revert(str(e))
            return self._convert(trader=_from, from_token=from_token, to_token=to_token, amount=_value, min_return=min_return)
"""),
          ("""        # update virtual balance if relevant
        connector = self._connectors[connector_token]
        if connector.is_virtual_balance_enabled.get():
            connector.virtual_balance.set(connector.virtual_balance.get() + amount)

        flexible_token_address = self._token.get()
        flexible_token = self.create_interface_score(flexible_token_address, FlexibleToken)

        # issue new funds to the caller in the flexible token
        flexible_token.issue(trader, return_amount)

        # dispatch the conversion event
        self.Conversion(
            connector_token, flexible_token_address, trader, amount, return_amount, fee_amount)

        # dispatch price data update for the flexible token/connector
        self.PriceDataUpdate(connector_token,
                             flexible_token.totalSupply(),
                             self.getConnectorBalance(connector_token),
                             connector.weight.get())
""", """        flexible_token_address = self._token.get()
        flexible_token = self.create_interface_score(flexible_token_address, FlexibleToken)
        flexible_token.issue(trader, return_amount)

        connector = self._connectors[connector_token]
        if connector.is_virtual_balance_enabled.get():
            connector.virtual_balance.set(connector.virtual_balance.get() + amount)
        self.Conversion(
            connector_token, flexible_token_address, trader, amount, return_amount, fee_amount)
        self._announce_price(connector_token, flexible_token.totalSupply())
"""),
          ("""        flexible_token = self.create_interface_score(self._token.get(), FlexibleToken)
        token_supply = flexible_token.totalSupply()
        self.PriceDataUpdate(from_token, token_supply, self.getConnectorBalance(from_token),
                             from_connector.weight.get())
        self.PriceDataUpdate(to_token, token_supply, self.getConnectorBalance(to_token),
                             to_connector.weight.get())
        return return_amount
""", """        token_supply = self.create_interface_score(self._token.get(), FlexibleToken).totalSupply()
        for token in (from_token, to_token):
            self._announce_price(token, token_supply)
        return return_amount

    def _announce_price(self, token: Address, supply: int) -> None:
        weight = self._connectors[token].weight.get()
        balance = self.getConnectorBalance(token)
        self.PriceDataUpdate(token, supply, balance, weight)
"""),
          ("""        # destroy _sellAmount from the caller's balance in the flexible token
        flexible_token.destroy(self.address, amount)

        # transfer funds""", """        # transfer funds"""),
          ("""        # update virtual balance if relevant
        connector = self._connectors[connector_token]
        if connector.is_virtual_balance_enabled.get():
            connector.virtual_balance.set(
                safe_sub(connector""", """        flexible_token.destroy(_from=self.address, _amount=amount)
        connector = self._connectors[connector_token]
        if connector.is_virtual_balance_enabled.get():
            connector.virtual_balance.set(
                safe_sub(connector"""),
          ("""        connector = self._connectors[connector_token]
        require(connector.is_purchase_enabled.get(), 'required purchase enabled')

        flexible_token = self.create_interface_score(self._token.get(), FlexibleToken)

        token_supply = flexible_token.totalSupply()
        connector_balance""", """        connector = self._connectors[connector_token]
        if not connector.is_purchase_enabled.get():
            revert('required purchase enabled')
        token_supply = self.create_interface_score(self._token.get(), FlexibleToken).totalSupply()
        connector_balance"""),
          ("""        from_connector_balance = self.getConnectorBalance(from_token)
        # the""", """        to_connector_balance = self.getConnectorBalance(to_token)
        from_connector_balance = self.getConnectorBalance(from_token)
        # the"""),
          ("""            from_connector_balance -= amount
        to_connector_balance = self.getConnectorBalance(to_token)
""", """            from_connector_balance = from_connector_balance - amount
"""),
          ("""        self.require_owner_only()
        self._require_valid_connector(_connectorToken)

        self._connectors[_connectorToken].is_purchase_enabled.set(not _disable)""", """        self._require_valid_connector(_connectorToken)
        self.require_owner_only()
        connector = self._connectors[_connectorToken]
        enabled = not _disable
        if connector.is_purchase_enabled.get() is not enabled:
            connector.is_purchase_enabled.set(enabled)"""),
          ("""        require(self._allow_registry_update.get() or self.msg.sender == self.getOwner(),
                'should""", """        caller_is_owner = self._is_owner(self.msg.sender) if hasattr(self, '_is_owner') else self.msg.sender == self.getOwner()
        require(caller_is_owner or self._allow_registry_update.get(),
                'should"""),
          ("""        # set the registry as previous registry
        self._registry.set(self._prev_registry.get())

        # after a previous registry is restored, only the owner can allow future updates
        self._allow_registry_update.set(False)""", """        self._allow_registry_update.set(False)
        previous = self._prev_registry.get()
        if previous != self._registry.get():
            self._registry.set(previous)"""),
          ("""        new_total_weight = self._total_connector_weight.get() - connector.weight.get() + _weight
        require(new_total_weight <= self._MAX_WEIGHT, 'total connector weight is overflow')

        self._total_connector_weight.set(new_total_weight)
        connector.weight.set(_weight)
        connector.is_virtual_balance_enabled.set(_enableVirtualBalance)
        connector.virtual_balance.set(_virtualBalance)""", """        before = connector.weight.get()
        if before != _weight:
            total = self._total_connector_weight.get() + (_weight - before)
            require(total <= self._MAX_WEIGHT, 'total connector weight is overflow')
            connector.weight.set(_weight)
            self._total_connector_weight.set(total)
        connector.virtual_balance.set(_virtualBalance)
        connector.is_virtual_balance_enabled.set(_enableVirtualBalance)"""),
          ("""        require(not self._is_active() or not self._connectors[_token].is_set.get(),
                'withdrawing""", """        self.require_owner_only()
        require(not (self._connectors[_token].is_set.get() and self._is_active()),
                'withdrawing"""),
          ("""        require_valid_address(_registry)
        self._require_valid_max_conversion_fee(_maxConversionFee)
        FlexibleTokenController.on_install(self, _token)
        Managed.on_install(self)
""", """        FlexibleTokenController.on_install(self, _token)
        Managed.on_install(self)
        self._require_valid_max_conversion_fee(_maxConversionFee)
        require_valid_address(_registry)
"""))


@g
def storage(t):
    t.sub('contracts/utility/storage.py',
          ("""        for name, db_class, value_type in field_infos:
            db = db_class(name, self._db, value_type=value_type)
            setattr(self, f'_{name}', db)""", """        for info in field_infos:
            self._add_field(*info)

    def _add_field(self, name, db_class, value_type):
        self.__dict__['_' + name] = db_class(name, self._db, value_type=value_type)"""))
    t.sub('contracts/utility/proxy_score.py',
          ("""        try:
            cache = mcs.__dict__["_proxy_class_cache"]
        except KeyError:
            mcs._proxy_class_cache = cache = {}
        try:
            proxy_class = cache[abc_class]
        except KeyError:
            cache[abc_class] = proxy_class = mcs._create_proxy_class(abc_class)
        return proxy_class""", """        if "_proxy_class_cache" not in mcs.__dict__:
            mcs._proxy_class_cache = {}
        cache = mcs._proxy_class_cache
        if abc_class not in cache:
            cache[abc_class] = mcs._create_proxy_class(abc_class)
        return cache[abc_class]"""))


@g
def tools(t):
    t.sub('contract_generator/writer.py',
          ("""        with ZipFile(self.in_memory, mode="r") as z:
            if path.isdir(output_root_dir):
                rmtree(output_root_dir)
            z.extractall(output_root_dir)""", """        if path.isdir(output_root_dir):
            rmtree(output_root_dir)
        with ZipFile(BytesIO(self.to_bytes())) as archive:
            for info in archive.infolist():
                archive.extract(info, output_root_dir)"""),
          ("""                for path_tuple in contract.path_list:
                    cur_file_path = path_tuple[0]
                    new_file_path = path_tuple[1]
                    self.zf.write(cur_file_path, new_file_path)""", """                for source, name in contract.path_list:
                    with open(source, 'rb') as f:
                        self.zf.writestr(name, f.read(), compress_type=self.zf.compression)"""),
          ("""            if path.isdir(contract_path):
                rmtree(contract_path)
            for""", """            rmtree(contract_path, ignore_errors=not path.isdir(contract_path))
            for"""))
    t.sub('build.py',
          ("""    if command and command[0] == "clean":
        clean_build_dir(file_writer)
        return

    write_contracts_to_file_system(file_writer, command)""", """    if command[:1] == ["clean"]:
        clean_build_dir(file_writer)
    else:
        write_contracts_to_file_system(file_writer, command)"""))


@g
def formula(t):
    t.sub('contracts/formula/fixed_map_formula.py',
          ("""        while lo + 1 < hi:
            mid = (lo + hi) // 2
            if self._max_exp_array[mid] >= x:
                lo = mid
            else:
                hi = mid

        if self._max_exp_array[hi] >= x:
            return hi
        if self._max_exp_array[lo] >= x:
            return lo

        return 0""", """        fitting = [i for i in range(lo, hi + 1) if self._max_exp_array[i] >= x]
        return max(fitting, default=0)"""),
          ("""        temp = supply * result >> precision
        return temp - supply""", """        grown = (supply * result) // (1 << precision)
        return grown - supply"""),
          ("""        base_d = supply - sell_amount
        result, precision = self._power(supply, base_d, self._MAX_WEIGHT, connector_weight)
        temp_1 = connector_balance * result
        temp_2 = connector_balance << precision
        return (temp_1 - temp_2) // result""", """        result, precision = self._power(supply, supply - sell_amount, self._MAX_WEIGHT, connector_weight)
        return (result - (self._ONE << precision)) * connector_balance // result"""))


if __name__ == '__main__':
    t = T(sys.argv[1])
    for name in sys.argv[2:] or GROUPS:
        GROUPS[name](t)
