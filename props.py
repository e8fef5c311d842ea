"""What decides each property: contract modules (and keys), level, stand-ins."""
COMMON = ['dictionaries keep no observable order except where stated; strings are atoms except where stated',
          'no concurrent modification; log output is not specified']

INSTALL = ['installer plugins answer filter_uninstalled with their argument or a new list, compose new lists, and do not change lists '
           'they are given; exit statuses and detection answers are arbitrary',
           'subprocess.call may raise OSError (missing executable), which escapes from install',
           'configuration, database and installer context are given; spec answers are stable during the operation']


def P(level='proof', modules=(), keys=None, bounded=(), assumptions=(), **k):
    d = dict(level=level, modules=list(modules), bounded=list(bounded), assumptions=COMMON + list(assumptions), **k)
    if keys is not None:
        d['keys'] = keys
    return d


CONFIG = ['values of a type answer like the type in general: a type accepts, makes or refuses values independent of the state, returns what it accepts, '
          'and changes nothing (the classes are proved against this except that element types are arbitrary)',
          'the description has the structure proved of its construction (P23), and the command line arguments the values argparse gives for its options',
          'load_yaml is a function of the text which raises only YAMLError and gives dictionaries with immutable keys; files do not change while read']


PROPS = {
    'P02': P(modules=['rules_verify']),
    'P03': P(modules=['rules_spec'], keys=['xylem.sources.rules_dict:lookup_rules', 'xylem.sources.rules_dict:has_rule_for_os',
                                     'xylem.specs.plugins.rules:RulesSpec.lookup', 'xylem.specs.plugins.rules:RulesSpec.keys']),
    'P06': P(modules=['database'], keys=['xylem.sources.database:' + f for f in (
        'RulesSource.lookup', 'RulesSource.keys', 'RulesDatabase.lookup', 'RulesDatabase.keys')]),
    'P07': P(modules=['resolve'], keys=['xylem.resolve:resolve', 'xylem.util:remove_duplicates']),
    'P09': P(modules=['util', 'install'], keys=['xylem.install:' + f for f in (
        'install', 'install_resolved', 'install_resolutions', 'filter_uninstalled')], assumptions=INSTALL, defer={'xylem.resolve:resolve': 'P07'}),
    'P10': P(modules=['util', 'install'], keys=['xylem.install:' + f for f in (
        'install', '_squash_resolutions', '_map_resolutions', '_installer_names', 'filter_uninstalled', 'check_general_prerequisites',
        'check_install_prerequisites')], assumptions=INSTALL, defer={'xylem.resolve:resolve': 'P07'}),
    'P11': P(modules=['installers'], keys=['xylem.installers.impl:InstallerContext.' + f for f in (
        'setup_installers', 'lookup_installer', 'setup_os', '__init__', 'core_installer_names', 'additional_installer_names',
        'installer_plugin_names')] + ['xylem.installers.impl:ensure_installer_context', 'xylem.os_support.impl:OSSupport.__init__']),
    'P12': P(modules=['os_support']),
    'P13': P(modules=['os_plugins']),
    'P22': P(modules=['prereq'], keys=['xylem.installers.package_manager_installer:PackageManagerInstaller.check_' + f for f in (
        'package_manager_installed', 'package_manager_updated', 'general_prerequisites')], assumptions=[
            'plugins do not raise prerequisite errors themselves when installing or updating a package manager; asking raises nothing but '
            'NotImplementedError'],
        bounded=['overriding methods of the builtin installers: concrete oracle']),
    'P21': P(modules=['commands'], keys=['xylem.installers.installer_base:elevate_privileges',
                                         'xylem.installers.installer_base:InstallerBase.get_install_commands'] + [
        'xylem.installers.plugins.%s.get_install_commands_no_root' % x for x in (
            'apt:AptInstaller', 'pip:PipInstaller', 'homebrew:HomebrewInstaller', 'macports:MacportsInstaller', 'fake:FakeInstaller')],
        assumptions=['the options of an installer are parsed (P15); plain commands are new non-empty lists']),
    'P18': P(modules=['plugins'], keys=['xylem.plugin_utils:' + f for f in (
        'verify_plugin_name', 'verify_plugin_description', 'verify_plugin_class', 'verify_plugin_definition', 'PluginBase.verify_plugin',
        'load_plugins')], assumptions=[
            'definitions exist before loading and importing one changes no other; name and validity of an object depend on its class; '
            'opaque objects as definitions cannot be subscripted; loading or creating a plugin may raise any exception, which escapes'],
        bounded=['verify_plugin overridden by a plugin class: concrete oracle']),
    'P19': P(modules=['load_url'], keys=['xylem.load_url:load_url'], assumptions=[
        'urlopen and read fail with HTTPError, URLError, OSError or HTTPException only (ValueError for a text that is no URL); '
        'cgi.parse_header and to_str are functions of their arguments, to_str raising only UnicodeDecodeError']),
    'P17': P(modules=['cache'], keys=['xylem.sources.database:RulesSource.' + f for f in (
        'load_from_source', 'load_from_cache', 'save_to_cache')] + ['xylem.sources.database:RulesDatabase.' + f for f in (
            'update', 'load_from_cache', 'load_from_source', 'save_to_cache')] + ['verif.caches:save_and_load'], assumptions=[
                'pickle restores what was last written to the file; unique_id and the cache path are functions of the source; '
                'verification of loaded data is deterministic; the sources of a database are distinct']),
    'P20': P(modules=['sources'], keys=['xylem.specs.impl:verify_spec_name'] + ['xylem.sources.impl:' + f for f in (
        'verify_source_description', 'verify_source_description_list', 'parse_source_descriptions', 'parse_source_file', '_load_sources',
        'load_sources_from_path', 'get_source_descriptions', 'get_default_source_descriptions', 'SourcesContext.get_spec')] + [
            'xylem.sources.database:RulesDatabase.' + f for f in ('verify_unique_ids', 'init_from_sources')], assumptions=[
                'files and directories do not change during loading; names of a directory differ and have no separators; load_yaml is a '
                'function of the text which raises only YAMLError and gives no float, date or binary scalar as document; generators are '
                'unfolded when they are created, so which of several errors is reported first is not specified',
                'any exception may leave init_from_sources (plugins may reject arguments with any exception)']),
    'P16': P(modules=['config_dirs'], keys=['xylem.config_utils:' + f for f in (
        'system_config_dir', 'system_cache_dir', 'user_config_dir', 'user_cache_dir', 'expand_input_path', 'handle_global_config_arguments')] + [
            'xylem.config:' + f for f in ('sources_dir', 'parse_os_override', 'process_config')], assumptions=[
                'removing blanks around a text does not change the parts around a separator but for blanks; os.path functions are functions of '
                'their arguments and join goes by components; the environment does not change'],
        bounded=['the command line and the whole of handle_config_arguments: concrete oracle']),
    'P14': P(modules=['config_load'], keys=['xylem.config_utils:' + f for f in (
        'config_from_defaults', 'copy_conifg_dict', 'merge_configs', 'merge_with_defaults', 'ConfigType.merge', 'MergingDict.merge', 'load_config')] + [
            'xylem.config:get_default_config'], defer={'xylem.config_utils:' + f: 'P15' for f in (
                'config_from_parsed_yaml', 'config_from_args', 'config_from_file', 'load_config_file_yaml')}, assumptions=CONFIG),
    'P15': P(modules=['config_load'], keys=['xylem.config_utils:' + f for f in (
        'ConfigType.unset_value', 'ConfigType.is_unset', 'ConfigType.verify', 'ConfigType.from_yaml', 'ConfigType.from_command_line', 'String.verify',
        'String.from_command_line', 'Boolean.verify', 'List.verify', 'List.from_yaml', 'List.from_command_line', 'Dict.verify', 'Dict.from_yaml',
        'Dict.from_command_line', 'MergingDict.unset_value', 'Path.from_yaml', 'split_group', 'config_from_parsed_yaml', 'config_from_args',
        'config_from_file', 'load_config_file_yaml', 'process_config_file_yaml')] + ['xylem.config:ensure_config'], defer={
            'xylem.config_utils:merge_with_defaults': 'P14'}, assumptions=CONFIG),
    'P23': P(modules=['config_items'], keys=['xylem.config_utils:' + f for f in (
        'dashify', 'strip_leading_dashdash', 'ConfigItem.__init__', 'ConfigDescription.__init__', 'ConfigDescription.add', 'split_group',
        'config_from_defaults', 'config_from_args', 'config_from_parsed_yaml')], defer={'xylem.config_utils:merge_with_defaults': 'P14'}, assumptions=[
            'further arguments of add are such as ConfigItem takes: a type or class of types, a dictionary as default of a merging type, texts as argument',
            'the parts of a name before and after its last separator determine the name; types answer independent of the state']),
    'P08': P(modules=['installer_rules'], keys=['xylem.installers.installer_base:' + f for f in (
        'Resolution.__eq__', 'Resolution.__hash__', 'InstallerBase._parse_installer_rule', 'InstallerBase.get_depends', 'InstallerBase.resolve')] + [
            'verif.resolutions:hashes', 'xylem.config_utils:List.from_yaml', 'xylem.config_utils:ConfigType.from_yaml', 'xylem.config_utils:String.verify'], defer={
                'xylem.config_utils:config_from_parsed_yaml': 'P15'}, assumptions=[
                    'the description of rules of an installer is consistent and has lists as packages and depends',
                    'equal hashable values have equal hashes; resolutions compared are of one class, with a hashable package; their keys are equal if and only if identical']),
    'P04': P(modules=['rules_merge', 'rules_merge_all'],
             assumptions=['sources have the structure of expanded rules (dictionaries by key, os and version; no installer both by name and as the default one)']),
}
for i in range(1, 24):
    PROPS.setdefault('P%02d' % i, P('exploration'))
