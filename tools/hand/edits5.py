E=[]
def e(n,a,b): E.append((n,'interop/interop.py',a,b))
e('isexc',"""        ignored_ops = ignored_test["options"]
        ignored = True
        for option_name in ignored_ops:
          if option_name != "*" and (
              option_name not in options or
              options[option_name] not in ignored_ops[option_name]):
            ignored = False
        if ignored:
""","""        ignored_ops = ignored_test["options"]
        if all(name == "*" or (name in options and options[name] in values)
               for name, values in ignored_ops.items()):
""")
e('contains',"""      contains = lambda v, name: any(x in ignored_test[name] for x in (v, "*"))
""","""      def contains(v, name):
        return v in ignored_test[name] or "*" in ignored_test[name]
""")
e('options',"""    option_dict = dict(list(key_set_options.items()) + list(operation_options.items()))
    if not option_dict:
      yield {}
    else:
      for name, option_list in option_dict.items():
        if isinstance(option_list, str):
          option_dict[name] = self.macros[option_list]
      names, all_options = list(zip(*list(option_dict.items())))
      for options in itertools.product(*all_options):
        yield dict([(name, option) for name, option in zip(names, options)])
""","""    option_dict = dict(key_set_options)
    option_dict.update(operation_options)
    names = list(option_dict)
    all_options = [self.macros[option_dict[name]]
                   if isinstance(option_dict[name], str) else option_dict[name]
                   for name in names]
    for options in itertools.product(*all_options):
      yield dict(zip(names, options))
""")
e('testall',"""          combined_options = dict(list(options.items()) + list(generate_options.items()))
          if not self._IsException(
              implementation, operation, keyset.name, combined_options):
            yield (implementation, options)
""","""          combined_options = dict(options)
          combined_options.update(generate_options)
          if self._IsException(
              implementation, operation, keyset.name, combined_options):
            continue
          yield implementation, options
""")
e('genall',"""    for implementation in self.implementations:
      for operation in self.operations:
        purpose = self.operations[operation]["keytype"]
        for keyset in Keyset.GetGenerateKeysets(purpose, self):
""","""    for implementation, operation in itertools.product(
        self.implementations, self.operations):
        purpose = self.operations[operation]["keytype"]
        for keyset in Keyset.GetGenerateKeysets(purpose, self):
""")
e('makedirs',"""        for filename in os.listdir(location):
          file_path = os.path.join(location, filename)
          if os.path.isfile(file_path):
            os.remove(file_path)
""","""        file_paths = [os.path.join(location, f) for f in os.listdir(location)]
        for file_path in filter(os.path.isfile, file_paths):
          os.remove(file_path)
""")
e('create',"""    commands = [create_flags]
    commands += 2 * [add_key_flags]
    if asymmetric:
      self._MakeDirs(location + "public")
      commands.append(self._GetPubKeyFlags(location))
    params = {
        "command": "create",
        "keyczartCommands": commands
    }
    self.logger.Debug(
        self._CallImplementation(implementation, json.dumps(params)))
""","""    commands = [create_flags, add_key_flags, add_key_flags]
    if asymmetric:
      self._MakeDirs(location + "public")
      commands += [self._GetPubKeyFlags(location)]
    self._RunKeyczart(implementation, commands)
  def _RunKeyczart(self, implementation, commands):
    output = self._CallImplementation(implementation, json.dumps(
        {"command": "create", "keyczartCommands": commands}))
    self.logger.Debug(output)
""")
e('createenc',"""    commands = [create_flags]
    commands.append(add_key_flags)
    params = {
        "command": "create",
        "keyczartCommands": commands
    }
    self.logger.Debug(
        self._CallImplementation(implementation, json.dumps(params)))
""","""    self._RunKeyczart(implementation, [create_flags, add_key_flags])
""")
e('createkeys',"""    for implementation in self.implementations:
      for algorithm in self.algorithms:
        for size in self.algorithms[algorithm]["keySizes"]:
          self._Create(implementation, algorithm, size,
                       self.algorithms[algorithm]["asymmetric"])
    for implementation in self.implementations:
      for algorithm in self.algorithms:
        for size in self.algorithms[algorithm]["keySizes"]:
          self._CreateEncrypted(
              implementation, algorithm, size, CRYPTED_KEY_SET_ALGORITHM,
              self.algorithms[algorithm]["asymmetric"])
""","""    key_sets = [(implementation, algorithm, size, info["asymmetric"])
                for implementation in self.implementations
                for algorithm, info in self.algorithms.items()
                for size in info["keySizes"]]
    for key_set in key_sets:
      self._Create(*key_set)
    for implementation, algorithm, size, asymmetric in key_sets:
      self._CreateEncrypted(implementation, algorithm, size,
                            CRYPTED_KEY_SET_ALGORITHM, asymmetric)
""")
e('gengen',"""    for algorithm in algorithms:
      if algorithms[algorithm]["purpose"] == purpose:
        for size in algorithms[algorithm]["keySizes"]:
          if purpose == "crypt" and algorithms[algorithm]["asymmetric"]:
            yield cls(key_set_options, algorithm, size, "encrypt")
          yield cls(key_set_options, algorithm, size, purpose)
""","""    for algorithm, info in algorithms.items():
      if info["purpose"] != purpose:
        continue
      purposes = [purpose]
      if purpose == "crypt" and info["asymmetric"]:
        purposes.insert(0, "encrypt")
      for size in info["keySizes"]:
        for key_purpose in purposes:
          yield cls(key_set_options, algorithm, size, key_purpose)
""")
e('gentest',"""    if generate_keyset.purpose == "crypt":
      return [generate_keyset]
    elif generate_keyset.purpose == "encrypt":
      return [cls._SwitchPurpose(generate_keyset, "crypt")]
    elif generate_keyset.purpose == "sign":
      if algorithms[generate_keyset.algorithm]["asymmetric"]:
        return [generate_keyset, cls._SwitchPurpose(generate_keyset, "verify")]
      return [generate_keyset]
    else:
      raise ValueError("Unexpected generate purpose:" + generate_keyset.purpose)
""","""    purpose = generate_keyset.purpose
    if purpose not in ("crypt", "encrypt", "sign"):
      raise ValueError("Unexpected generate purpose:" + purpose)
    if purpose == "encrypt":
      return [cls._SwitchPurpose(generate_keyset, "crypt")]
    result = [generate_keyset]
    if purpose == "sign" and algorithms[generate_keyset.algorithm]["asymmetric"]:
      result.append(cls._SwitchPurpose(generate_keyset, "verify"))
    return result
""")
e('collect',"""    if message not in self.collection:
      self.collection[message] = []
    self.collection[message].append(details)
""","""    self.collection.setdefault(message, []).append(details)
""")
e('setup',"""      for test_implementation, test_options in self._TestAll(
          operation, keyset, generate_options):
        test_name = "test_%s_generated_by_%s_%s_%s_%s_%s" % (
            test_implementation,
            generate_implementation,
            operation,
            keyset.name,
            "_".join(list(generate_options.values())),
            "_".join(list(test_options.values())),
            )
""","""      for test_implementation, test_options in self._TestAll(
          operation, keyset, generate_options):
        test_name = "test_%s_generated_by_%s_%s" % (
            test_implementation, generate_implementation,
            "_".join([operation, keyset.name,
                      "_".join(generate_options.values()),
                      "_".join(test_options.values())]))
""")
e('addflags',"""    add_key_flags += flags
    add_key_flags += self.algorithms[algorithm]["addKeyFlags"]
    return add_key_flags
""","""    add_key_flags.extend(flags)
    return add_key_flags + self.algorithms[algorithm]["addKeyFlags"]
""")
