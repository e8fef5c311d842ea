"""Writes /verif/properties.jsonl (kept as source for review)."""
import json
P = []


def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files,
                          mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state:
        d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe:
        d['anchors']['observe_at'] = list(observe)
    assert len(title) <= 80, title
    P.append(d)


RD = 'xylem/sources/rules_dict.py'
RU = 'xylem/specs/plugins/rules.py'
DBF = 'xylem/sources/database.py'

p('P01', 'Shorthand rules expand to exactly the explicit form',
  "Expanding a rules document gives exactly the explicit form the specification defines: null, strings and lists become packages of the default installer for any version, an any_os entry without any_version is read as an installer map, and empty dependencies are dropped, while all keys, unknown rule entries and already explicit rules stay as written. Expanding an expanded document changes nothing. A document that does not fit the grammar is rejected with a value error or rules-parsing error, never with another exception or a partially expanded result.",
  ['inputs'], 'all rules documents: any nesting of dict, list, text, null and scalars as produced by YAML (trees, no aliases)',
  'The tests expand one hand-written document; the shorthands combine at four nesting levels with any_os and empty values, far beyond those samples.',
  [RU], [('expand_rules', RU), ('expand_os_definition', RU), ('expand_os_version_definition', RU), ('expand_installer_definition', RU), ('expand_definition', RU)])

p('P02', 'Rules verification accepts exactly well-formed rules',
  "Verification of expanded rules succeeds if and only if they are well formed: dictionaries of keys, operating systems, versions and installers whose names are valid identifiers, with reserved words only in their own position, rules with text entries, list-valued packages and dependencies that are valid keys. The reserved default installer is refused wherever default installers are not allowed and always under any_os. Everything else is rejected with a value error, and verification never changes its input.",
  ['inputs'], 'all Python values as rules, with and without default installers allowed',
  'There is no test of verification at all; it must reject every malformed shape (types at each level, reserved words, characters), not a sample.',
  [RD], [('verify_rules_dict', RD), ('verify_os_dict', RD), ('verify_version_dict', RD), ('verify_installer_dict', RD), ('verify_installer_rule', RD), ('verify_rules_dict_identifier', RD)])

p('P03', 'Lookup in one rules source honours specific-over-generic order',
  "Looking up a key for an operating system and version returns, per installer, the rule of that exact version if there is one, else the rule for any version of that OS, else the rule for any OS, and no other installers. Rules for the default installer are returned under the name of the OS's default installer and are refused when there is none. Lookup and the listing of keys defined for the OS and version agree with the rules and never modify them.",
  ['inputs'], 'all expanded rules, keys, OS names, versions and default installer names',
  'No test performs a lookup; the order has to hold for each combination of the three layers and the default installer name.',
  [RD, RU], [('lookup_rules', RD), ('merge_installer_dict', RD), ('replace_default_installer', RD), ('has_rule_for_os', RD), ('RulesSpec.lookup', RU), ('RulesSpec.keys', RU)])

p('P04', 'Merging rules sources equals looking them up in order',
  "Looking up in the merged rules of several sources gives, for every key, OS with a known default installer, version and installer, the rule of the first source that has one for it under that source's own specific-over-generic order. Only OSs with a known default installer, and rules for any OS, remain in the merged rules, with default installers replaced by name. The source rules are not modified and later changes of the merged structure do not reach them.",
  ['inputs'], 'all lists of expanded rules and maps of default installers',
  'The tests merge three fixed examples; a specific rule of a low priority source can survive wrongly only for particular mixes of any_os, any_version and installer names.',
  [RD], [('merge_rules', RD), ('merge_os_dict', RD), ('merge_version_dict', RD), ('merge_installer_dict', RD), ('copy_os_dict', RD), ('copy_version_dict', RD), ('copy_installer_dict', RD), ('remove_rule_for_all_os', RD), ('remove_rule_for_all_versions', RD)])

p('P05', 'Compacting rules preserves their meaning',
  "Compacting expanded rules and expanding the result again gives rules with the same lookup result for every key, OS, version and installer. Compacting a single installer map yields an equivalent shorthand in which only the default installer may become anonymous. Maps naming both the default installer and its replacement are rejected with a value error rather than losing one of the two rules.",
  ['inputs'], 'all expanded rules and maps of default installers',
  'One document is compacted in the tests; whether a dropped or folded entry changes a lookup depends on the combination of entries.',
  [RU], [('compact_rules', RU), ('compact_os_dict', RU), ('compact_version_dict', RU), ('compact_installer_dict', RU), ('compact_installer_rule', RU)])

p('P06', 'Database lookup merges sources by priority; keys are complete',
  "Looking a key up in the database returns, per installer, the rule of the first source in order that has one, and nothing that no source provides. A source answering with an invalid installer map, or with an unreplaced default installer, makes the lookup fail with a value error instead of entering the result. The listed keys are exactly the keys some source defines for the OS and version, each once, and neither operation changes the loaded data.",
  ['inputs', 'configurations'], 'all numbers and contents of sources and spec plugins',
  'No test builds a database; priorities only matter with several overlapping sources.',
  [DBF], [('RulesDatabase.lookup', DBF), ('RulesDatabase.keys', DBF), ('RulesSource.lookup', DBF), ('merge_installer_dict', RD)])

p('P07', 'Resolve answers each key once and picks the right installer',
  "Resolving a list of keys yields every requested key exactly once, either in the results or in the errors, each in order of first request, and with all keys requested also every key of the database. A key configured to be installed from one installer is resolved by that installer or reported as an error; any other key is resolved by the first core installer that has a rule, and by an additional installer only if no core installer has one. The reported resolutions are the chosen installer's answer to the chosen rule, and installer errors or lookup errors of one key are reported for that key and do not prevent the resolution of others.",
  ['inputs', 'configurations'], 'all key lists, databases, installer sets and install-from configurations',
  'Resolve has no test; the choice depends on configuration, rule sets and installer order together.',
  ['xylem/resolve.py', 'xylem/util.py'], [('resolve', 'xylem/resolve.py'), ('remove_duplicates', 'xylem/util.py'), ('InstallerContext.lookup_installer', 'xylem/installers/impl.py')])

p('P08', 'Installer rules give one resolution per package, comparable by value',
  "Resolving an installer rule gives one resolution per listed package in the same order, each carrying the package and all options of the rule, but no dependencies, and independent of the rule itself; the dependencies are available separately. Malformed rules are rejected as invalid rules. Resolutions are equal exactly when their entries are equal, and equal resolutions have equal hashes whatever the order of entries or the types of option values.",
  ['inputs'], 'all installer rules and option values',
  'There are no tests of resolution objects; hash consistency must hold for every construction order and option type.',
  ['xylem/installers/installer_base.py', 'xylem/config_utils.py'], [('InstallerBase.resolve', 'xylem/installers/installer_base.py'), ('InstallerBase.get_depends', 'xylem/installers/installer_base.py'), ('Resolution.__eq__/__hash__', 'xylem/installers/installer_base.py')])

p('P09', 'Installation runs only what it should and reports every failure',
  "When simulating, or when resolution failed and continuing on errors was not requested, no install command is executed. Otherwise the commands composed by the installers are executed in order, each once, and without continue-on-error none is executed after the first failing one. Every nonzero exit status, every package not detected afterwards, and every failure to compose commands or to detect packages afterwards is reported in the returned errors; an empty result of a real run means that all composed commands succeeded and their packages are detected.",
  ['inputs', 'fault_sequences'], 'all installer answers, exit codes and failure points, for each combination of simulate, reinstall and continue-on-error',
  'Installing has no test, and a test samples few of the failure points and flag combinations.',
  ['xylem/install.py'], [('install', 'xylem/install.py'), ('install_resolved', 'xylem/install.py'), ('install_resolutions', 'xylem/install.py'), ('filter_uninstalled', 'xylem/install.py')])

p('P10', 'Grouping by installer preserves the order and content of resolutions',
  "When resolutions are grouped for installation, the concatenation of all groups is exactly the sequence of resolutions in order, each with its installer, and neighbouring groups have different installers. Filtering keeps, in order, exactly the resolutions their installer declares uninstalled and drops empty groups. Prerequisites are checked exactly once per installer involved, for all its resolutions, before anything is installed.",
  ['inputs'], 'all sequences of (installer, resolutions)',
  'No test covers grouping; lost or reordered packages need particular sequences of installers.',
  ['xylem/install.py', 'xylem/util.py'], [('_squash_resolutions', 'xylem/install.py'), ('_map_resolutions', 'xylem/install.py'), ('filter_uninstalled', 'xylem/install.py'), ('check_general_prerequisites', 'xylem/install.py'), ('check_install_prerequisites', 'xylem/install.py'), ('remove_duplicates', 'xylem/util.py')])

p('P11', 'Installer setup follows configuration, OS and plugins',
  "The core installers are those named by the configuration, or else by the OS for its version, in that order, with unknown names left out. Additional installers are exactly the loaded plugins that offer themselves for the OS and are not core, and there are none if disabled in the configuration. Every loaded installer gets the options configured for its name before it is used, and looking up an installer by name gives the plugin of that name or nothing.",
  ['configurations'], 'all configurations, OS plugins and installer plugins',
  'One test sets up installers for a single configuration.',
  ['xylem/installers/impl.py'], [('InstallerContext.setup_installers', 'xylem/installers/impl.py'), ('InstallerContext.lookup_installer', 'xylem/installers/impl.py'), ('InstallerContext.setup_os', 'xylem/installers/impl.py')])

p('P12', 'The most specific matching OS is detected; overrides are validated',
  "Detection selects an OS plugin that matches the system, and one that is not a parent of another matching plugin whenever the matching plugins form a line of derivatives, regardless of plugin order; it fails with an unsupported-OS error exactly when none matches. Overriding selects the named plugin with exactly the given version, or the detected version if none is given, and is rejected for unknown names and versions without changing the current OS. An override answers all other queries like the OS it stands for.",
  ['inputs', 'configurations'], 'all sets and orders of OS plugins, matches and override requests',
  'Tests use two mock plugins in one order.',
  ['xylem/os_support/impl.py'], [('OSSupport.detect_os', 'xylem/os_support/impl.py'), ('OSSupport.override_os', 'xylem/os_support/impl.py'), ('OSOverride', 'xylem/os_support/impl.py'), ('OSSupport.lookup_os', 'xylem/os_support/impl.py')])

p('P13', 'OS tuples and version order are consistent',
  "All tuples of an OS list its names from most to least specific, starting with the given version, each parent's version derived from its child's by the declared mapping, and unknown from the first missing mapping on. The version order is a strict total order on the known versions in their listed sequence, and comparing an unknown version is refused with an unsupported-version error.",
  ['inputs'], 'all name lists, version mappings, versions and version lists',
  'No test computes tuples or version order.',
  ['xylem/os_support/plugins.py', 'xylem/os_support/os_base.py'], [('_OSDetecorBase.get_all_tuples', 'xylem/os_support/plugins.py'), ('version_order_from_list', 'xylem/os_support/os_base.py'), ('OSBase.get_tuple', 'xylem/os_support/os_base.py')])

p('P14', 'Configuration cascade takes each value from the first source setting it',
  "The effective configuration contains every described item, and its value is that of the first source setting it in the order command line, user file, system file, default; items of merging dictionary type are combined entry by entry in the same order. Groups are merged item by item, unknown entries are ignored, and no source configuration or default is modified by merging.",
  ['configurations'], 'all descriptions with groups and all cascades of set and unset values',
  'Tests check type parsing only; precedence depends on which of several sources set an item.',
  ['xylem/config_utils.py'], [('merge_configs', 'xylem/config_utils.py'), ('ConfigType.merge', 'xylem/config_utils.py'), ('MergingDict.merge', 'xylem/config_utils.py'), ('config_from_defaults', 'xylem/config_utils.py'), ('merge_with_defaults', 'xylem/config_utils.py'), ('load_config', 'xylem/config_utils.py')])

p('P15', 'Parsed configuration is well typed; bad input is a config value error',
  "Every configuration produced from parsed YAML or command line values contains exactly the described items, each unset or of its declared type in all nested elements. Input that does not fit is rejected with a configuration value error and no other exception. Parsing does not modify its input, and parsing a valid value again gives the same value.",
  ['inputs'], 'all YAML values and command line strings against all declared types',
  'Tests parse a list of sample values per type.',
  ['xylem/config_utils.py'], [('config_from_parsed_yaml', 'xylem/config_utils.py'), ('ConfigType.from_yaml', 'xylem/config_utils.py'), ('List.from_yaml', 'xylem/config_utils.py'), ('Dict.from_yaml', 'xylem/config_utils.py'), ('ConfigType.from_command_line', 'xylem/config_utils.py'), ('ConfigType.verify', 'xylem/config_utils.py'), ('process_config_file_yaml', 'xylem/config_utils.py')])

p('P16', 'Cache and sources locations and OS override follow from configuration',
  "An explicitly configured cache or sources directory is always used; otherwise it lies in the configuration directory if one is given, else in the user directory if user sources are enabled, else under the prefix. An OS override text is split into name, optional version and optional features at the first ampersand and the first colon before it, with surrounding blanks removed, and given features replace the configured ones. Options from the command line win over environment variables, which win over defaults.",
  ['inputs', 'configurations'], 'all combinations of arguments, environment and configuration, and all override texts',
  'No test processes a configuration.',
  ['xylem/config.py', 'xylem/config_utils.py'], [('process_config', 'xylem/config.py'), ('parse_os_override', 'xylem/config.py'), ('handle_global_config_arguments', 'xylem/config_utils.py')])

p('P17', 'Source caches round-trip and only valid data replaces loaded data',
  "Saving a loaded source and loading it from the cache restores the same arguments, origin, data and load time. A cache that is malformed, written for another spec or holds data the spec rejects, and a source that cannot be loaded or verified, leave the source's current state unchanged and never reach the cache. An update processes every source even if others fail, writes caches only for the sources that loaded, and a dry run changes no cache.",
  ['inputs', 'histories', 'fault_sequences'], 'all source contents, cache contents, orders of operations and failing sources',
  'No test touches caches; the guarantee is about every failure point and history of operations.',
  [DBF, 'xylem/update.py'], [('RulesSource.load_from_cache', DBF), ('RulesSource.load_from_source', DBF), ('RulesSource.save_to_cache', DBF), ('RulesDatabase.update', DBF), ('_read_cache', DBF), ('update', 'xylem/update.py')],
  state=[('RulesSource.data', 'loaded rules of the source', DBF)])

p('P18', 'Loaded plugins are valid, enabled and unique by name',
  "Loading plugins returns one object for each enabled valid plugin definition, in order of discovery, with the first of several objects of equal name kept. Definitions that are malformed, have the wrong class, are disabled by plugin name or whose object has an invalid name are skipped without affecting the others. Disabled and malformed plugins are never instantiated.",
  ['inputs', 'configurations'], 'all sequences of plugin definitions and disabled lists',
  'Tests only load the builtin plugins.',
  ['xylem/plugin_utils.py'], [('load_plugins', 'xylem/plugin_utils.py'), ('verify_plugin_definition', 'xylem/plugin_utils.py'), ('PluginBase.verify_plugin', 'xylem/plugin_utils.py')])

p('P19', 'Downloads retry a bounded number of times and fail uniformly',
  "Loading a URL makes at most one attempt more than the number of retries, waits the retry period between attempts, and retries only after a busy response or a timeout, including a timeout while reading. It returns the text of the first successful response in its declared character set, and every I/O or protocol error while opening or reading surfaces as a download failure.",
  ['fault_sequences'], 'all sequences of responses and failures, and retry counts including negative ones',
  'Downloading has no test; retries depend on the sequence of failures.',
  ['xylem/load_url.py'], [('load_url', 'xylem/load_url.py')])

p('P20', 'Source lists load in order; malformed descriptions are rejected',
  "The source descriptions of a directory come from exactly its visible YAML files, in alphabetical order, each with the descriptions in file order. A description list is accepted exactly if every element is a dictionary with one text key; other structures raise a value error and syntactically invalid files count as empty. The database has one source per description in that order, unknown specs and duplicate sources are refused.",
  ['inputs', 'configurations'], 'all directory contents and parsed source files',
  'No test loads source files.',
  ['xylem/sources/impl.py', DBF], [('load_sources_from_path', 'xylem/sources/impl.py'), ('_load_sources', 'xylem/sources/impl.py'), ('parse_source_descriptions', 'xylem/sources/impl.py'), ('verify_source_description_list', 'xylem/sources/impl.py'), ('verify_source_description', 'xylem/sources/impl.py'), ('RulesDatabase.init_from_sources', DBF), ('SourcesContext.get_spec', 'xylem/sources/impl.py')])

p('P21', 'Commands are elevated to root exactly when needed and only once',
  "Install commands start with sudo exactly once if the installer is configured to run as root and the user is not root, and otherwise are the installer's own commands unchanged. Their number, order and arguments are the same in both cases, with one command per resolution naming its package for the builtin installers.",
  ['inputs', 'configurations'], 'all command lists, users and options',
  'No test composes commands.',
  ['xylem/installers/installer_base.py', 'xylem/installers/plugins/apt.py'], [('InstallerBase.get_install_commands', 'xylem/installers/installer_base.py'), ('elevate_privileges', 'xylem/installers/installer_base.py'), ('get_install_commands_no_root', 'xylem/installers/plugins')])

p('P22', 'Missing package managers are never ignored',
  "The prerequisite check of a package manager passes only if the package manager is installed, at once or after an attempt to install it, and fails with a prerequisite error otherwise. Installing or updating the package manager is attempted only when fixing was requested, at most once, and passes the interactive choice on. A package manager that is out of date or cannot tell never makes the check fail.",
  ['inputs', 'fault_sequences'], 'all outcomes of the installed/updated queries and of the fixes',
  'No test runs a prerequisite check.',
  ['xylem/installers/package_manager_installer.py'], [('check_package_manager_installed', 'xylem/installers/package_manager_installer.py'), ('check_package_manager_updated', 'xylem/installers/package_manager_installer.py'), ('check_general_prerequisites', 'xylem/installers/package_manager_installer.py')])

p('P23', 'Configuration items have unique names, groups and arguments',
  "Adding an item to a configuration description is refused when its name, its group or its command line argument conflicts with an existing one. After every accepted sequence of additions each item is reachable under its full name, in its group and by its argument, and default, file and command line configurations all have the same keys. The command line argument is the given one or the dashed name, present exactly if the item is exposed.",
  ['histories'], 'all sequences of item additions',
  'The tests use one fixed description.',
  ['xylem/config_utils.py'], [('ConfigDescription.add', 'xylem/config_utils.py'), ('ConfigItem.__init__', 'xylem/config_utils.py'), ('split_group', 'xylem/config_utils.py'), ('dashify', 'xylem/config_utils.py')])

with open('/verif/properties.jsonl', 'w') as f:
    for d in P:
        f.write(json.dumps(d) + '\n')
print(len(P))
