import json
import h5py
import numpy as np
import os
import warnings

def print_log_files(savedir):
    bf = []
    for file in os.listdir(savedir):
        if 'log' in file:
            bf.append(file)
    nlogf = len(bf)
    for ii in range(nlogf):
        logfile = _create_path_without_extension(savedir, bf[ii])
        with open(logfile, 'r') as file:
            logstr = file.read()
        print('--------------------------')
        print('Display log file: {}'.format(logfile))
        print(logstr)
        print('--------------------------\n')

def load_serial_simulation_results(savedir, json_file=None, extension='h5', chainfile='chainfile', sschainfile='sschainfile', s2chainfile='s2chainfile', covchainfile='covchainfile'):
    items = os.listdir(savedir) if json_file is None else []
    for item in items:
        if item.endswith('.json'):
            json_file = item
            break
    if json_file is not None:
        results = load_json_object(savedir + os.sep + json_file)
    else:
        results = {}
    for key in results.keys():
        if isinstance(results[key], list):
            results[key] = np.array(results[key])
    if 'chain' not in results.keys():
        out = read_in_savedir_files(savedir, extension=extension, chainfile=chainfile, sschainfile=sschainfile, s2chainfile=s2chainfile, covchainfile=covchainfile)
        if len(out['chain']) == 0:
            warnings.warn('WARNING: No chains found in saved results.', UserWarning)
        results['chain'] = out['chain']
        results['sschain'] = out['sschain']
        results['s2chain'] = out['s2chain']
        results['covchain'] = out['covchain']
    return results

def load_parallel_simulation_results(savedir, extension='h5', chainfile='chainfile', sschainfile='sschainfile', s2chainfile='s2chainfile', covchainfile='covchainfile'):
    pres = read_in_parallel_json_results_files(savedir)
    for ii, pr in enumerate(pres):
        for key in pr.keys():
            if isinstance(pres[ii][key], list):
                pres[ii][key] = np.array(pres[ii][key])
    if 'chain' not in pr.keys():
        out = read_in_parallel_savedir_files(savedir, extension=extension, chainfile=chainfile, sschainfile=sschainfile, s2chainfile=s2chainfile, covchainfile=covchainfile)
        if len(out[0]['chain']) == 0:
            warnings.warn('WARNING: No chains found in saved results.', UserWarning)
        for ii, pr in enumerate(pres):
            pr['chain'] = out[ii]['chain']
            pr['sschain'] = out[ii]['sschain']
            pr['s2chain'] = out[ii]['s2chain']
            pr['covchain'] = out[ii]['covchain']
    return pres

def read_in_savedir_files(savedir, extension='h5', chainfile='chainfile', sschainfile='sschainfile', s2chainfile='s2chainfile', covchainfile='covchainfile'):
    bf = []
    for file in os.listdir(savedir):
        if file.endswith(str('.{}'.format(extension))):
            bf.append(file)
    chainfile = _create_path_with_extension(savedir, chainfile, extension=extension)
    sschainfile = _create_path_with_extension(savedir, sschainfile, extension=extension)
    s2chainfile = _create_path_with_extension(savedir, s2chainfile, extension=extension)
    covchainfile = _create_path_with_extension(savedir, covchainfile, extension=extension)
    if extension == 'h5':
        out = {'chain': read_in_bin_file(chainfile), 'sschain': read_in_bin_file(sschainfile), 's2chain': read_in_bin_file(s2chainfile), 'covchain': read_in_bin_file(covchainfile)}
    elif extension == 'txt':
        out = {'chain': read_in_txt_file(chainfile), 'sschain': read_in_txt_file(sschainfile), 's2chain': read_in_txt_file(s2chainfile), 'covchain': read_in_txt_file(covchainfile)}
    else:
        out = None
        warnings.warn('Unknown extension specified -> log files saved as either h5 (binary) or txt (text).')
    return out

def read_in_parallel_savedir_files(parallel_dir, extension='h5', chainfile='chainfile', sschainfile='sschainfile', s2chainfile='s2chainfile', covchainfile='covchainfile'):
    chainfolders = os.listdir(parallel_dir)
    chainfolders = check_parallel_directory_contents(parallel_dir, chainfolders)
    out = []
    for folder in chainfolders:
        savedir = _create_path_without_extension(parallel_dir, folder)
        out.append(read_in_savedir_files(savedir, extension=extension, chainfile=chainfile, sschainfile=sschainfile, s2chainfile=s2chainfile, covchainfile=covchainfile))
    return out

def read_in_parallel_json_results_files(parallel_dir):
    chainfolders = os.listdir(parallel_dir)
    chainfolders = check_parallel_directory_contents(parallel_dir, chainfolders)
    parallel_results = []
    for folder in chainfolders:
        filename = os.path.join(parallel_dir, folder, str('{}.json'.format(folder)))
        parallel_results.append(load_json_object(filename=filename))
    return parallel_results

def check_parallel_directory_contents(parallel_dir, cf_orig):
    chainfolders = []
    for cf in cf_orig:
        if os.path.isdir(parallel_dir + os.sep + cf) is True and 'chain_' in cf:
            chainfolders.append(cf)
    chainfolders.sort(key=_numeric_sort_key)
    return chainfolders

def _numeric_sort_key(name):
    return [(0, int(part), '') if part.isdigit() else (1, 0, part) for part in name.split('_')]

def read_in_bin_file(filename):
    try:
        hf = h5py.File(filename, 'r')
        ds = sorted(hf.keys(), key=_numeric_sort_key)
        sh = np.zeros([len(ds), 2], dtype=int)
        for ii, dsii in enumerate(ds):
            tmp = hf.get(ds[ii])
            sh[ii, :] = tmp.shape
        out = np.zeros([sum(sh[:, 0]), sh[0, 1]])
        for ii, dsii in enumerate(ds):
            if ii == 0:
                a = 0
                b = sh[ii, 0]
            else:
                a = a + sh[ii - 1, 0]
                b = a + sh[ii, 0]
            out[a:b, :] = np.array(hf.get(dsii))
        hf.close()
    except Exception as ex:
        template = 'An exception of type {0} occurred. Arguments:\n{1!r}'
        message = template.format(type(ex).__name__, ex.args)
        print(message)
        warnings.warn('Exception raised reading {} - does not exist                       - check path/file name.  Assigning to empty list.'.format(filename))
        out = []
    return out

def read_in_txt_file(filename):
    try:
        out = np.loadtxt(filename, ndmin=2)
    except Exception as ex:
        template = 'An exception of type {0} occurred. Arguments:\n{1!r}'
        message = template.format(type(ex).__name__, ex.args)
        print(message)
        warnings.warn('Exception raised reading {} - does not exist                       - check path/file name.  Assigning to empty list.'.format(filename))
        out = []
    return out

def _create_path_with_extension_for_all_logs(options, extension='h5'):
    chainfile = _create_path_with_extension(options.savedir, options.chainfile, extension)
    s2chainfile = _create_path_with_extension(options.savedir, options.s2chainfile, extension)
    sschainfile = _create_path_with_extension(options.savedir, options.sschainfile, extension)
    covchainfile = _create_path_with_extension(options.savedir, options.covchainfile, extension)
    return (chainfile, s2chainfile, sschainfile, covchainfile)

def _create_path_with_extension(savedir, file, extension='h5'):
    file = os.path.join(savedir, str('{}.{}'.format(file, extension)))
    return file

def _create_path_without_extension(savedir, file):
    file = os.path.join(savedir, file)
    return file

def _add_to_log(filename, logstr):
    with open(filename, 'a') as logfile:
        logfile.write(logstr)

def _save_to_bin_file(filename, datasetname, mtx):
    with h5py.File(filename, 'a') as hf:
        hf.create_dataset(datasetname, data=mtx)

def _save_to_txt_file(filename, mtx):
    with open(filename, 'ab') as handle:
        np.savetxt(handle, mtx)

def _check_directory(directory):
    if not os.path.exists(directory):
        os.makedirs(directory)

def load_json_object(filename):
    with open(filename, 'r') as obj:
        results = json.load(obj)
    return results

def generate_combined_chain_with_index(pres, burnin_percentage=50):
    index = []
    for ii, pr in enumerate(pres):
        burnin = int(pr['chain'].shape[0] * burnin_percentage / 100)
        if ii == 0:
            combined_chain = pr['chain'][burnin:, :]
        else:
            combined_chain = np.concatenate((combined_chain, pr['chain'][burnin:, :]))
        for jj in range(pr['chain'][burnin:, :].shape[0]):
            index.append(str('Chain {}'.format(ii)))
    return (combined_chain, index)

def generate_chain_list(pres, burnin_percentage=50):
    chains = []
    for ii in range(len(pres)):
        burnin = int(pres[ii]['chain'].shape[0] * burnin_percentage / 100)
        chains.append(pres[ii]['chain'][burnin:, :])
    return chains
