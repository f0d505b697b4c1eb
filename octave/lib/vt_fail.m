function vt_fail (key, varargin)
% records a violation of the property by the current case
  global T
  n = 0 ;
  for i = 1:numel(T.viol)
    if strcmp(T.viol{i}.group, T.group) && strcmp(T.viol{i}.key, key), n = n + 1 ; end
  end
  if n >= 3, return ; end
  T.viol{end+1} = struct('group', T.group, 'kase', T.kase, 'key', key, 'msg', sprintf(varargin{:}), 'desc', T.d) ;
end
