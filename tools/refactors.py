#!/usr/bin/env python3
"""Behaviour-preserving edits: the checks must stay quiet on each.
refactors.py [ID...]: applies each to a scratch copy mounted over /repo, builds, runs the tests and the listed checks."""
import os, subprocess, sys, tempfile

R = {}


def r(id, props, *edits):
    R[id] = (props.split(), edits)


M = 'src/money_utils.cc'
r('money-helper', 'C01 C02',
  (M, '''  int carry = 0;  // The unit value carried from adding nanos

  // Calculate the sum of nanos.
  int sum_nanos = a.nanos() + b.nanos();
  const int kBillion = 1000000000;
  if (sum_nanos >= kBillion) {
    carry = 1;
    sum_nanos -= kBillion;
  } else if (sum_nanos <= -kBillion) {
    carry = -1;
    sum_nanos += kBillion;
  }
''', '''  const int kBillion = 1000000000;
  int sum_nanos = a.nanos() + b.nanos();
  int carry = NanosCarry(sum_nanos, kBillion);
  sum_nanos -= carry * kBillion;
'''),
  (M, '''Status TryAddMoney(const Money& a''', '''namespace {
// The units to carry from a sum of nanos.
int NanosCarry(int nanos, int billion) {
  if (nanos <= -billion) return -1;
  return nanos >= billion ? 1 : 0;
}
}  // namespace

Status TryAddMoney(const Money& a'''))
r('money-sign', 'C01 C02',
  (M, '''  if (money.units() > 0) {
    return 1;
  } else if (money.units() < 0) {
    return -1;
  } else if (money.nanos() > 0) {
    return 1;
  } else if (money.nanos() < 0) {
    return -1;
  } else {
    return 0;
  }
''', '''  const int64_t units = money.units();
  const int nanos = money.nanos();
  if (units != 0) return units > 0 ? 1 : -1;
  return (nanos > 0) - (nanos < 0);
'''),
  (M, '''  if (money.currency_code().empty() || money.currency_code().length() != 3) {''', '''  if (money.currency_code().size() != 3u) {'''))
r('money-order', 'C01 C02',
  (M, '''  // Get the sign of a and b in order to detect overflow.
  int sign_a = GetAmountSign(a);
  int sign_b = GetAmountSign(b);

''', ''),
  (M, '''  sum->set_currency_code(a.currency_code());

''', '''  const int sign_a = GetAmountSign(a);
  const int sign_b = GetAmountSign(b);
  sum->set_currency_code(b.currency_code());

'''),
  (M, '''  sum->set_units(sum_units);
  sum->set_nanos(sum_nanos);
  return''', '''  sum->set_nanos(sum_nanos);
  sum->set_units(sum_units);
  return'''))
D = 'utils/distribution_helper.cc'
r('dist-general', 'C03 C04 C05 C06',
  (D, '''    int64_t count = distribution->count();
    double mean = distribution->mean();
    double new_mean = (count * mean + value) / (count + 1);
''', '''    const int64_t count = distribution->count();
    const int64_t new_count = count + 1;
    const double mean = distribution->mean();
    const double new_mean = (count * mean + value) / new_count;
'''),
  (D, '''    distribution->set_count(count + 1);
    distribution->set_minimum(std::min(value, distribution->minimum()));
    distribution->set_maximum(std::max(value, distribution->maximum()));

    distribution->set_mean(new_mean);
''', '''    distribution->set_mean(new_mean);
    distribution->set_count(new_count);
    distribution->set_maximum(std::max(value, distribution->maximum()));
    distribution->set_minimum(std::min(value, distribution->minimum()));
'''))
r('dist-bump', 'C03 C04 C05 C06',
  (D, '''void UpdateExponentialBucketCount(double''', '''// Counts one more sample in a bucket.
void IncrementBucket(int bucket_index, Distribution* distribution) {
  int64_t old_count = distribution->bucket_counts(bucket_index);
  distribution->set_bucket_counts(bucket_index, old_count + 1);
}

void UpdateExponentialBucketCount(double'''),
  (D, '''      bucket_index = 1 + static_cast<int>(position);
    }
  }
  distribution->set_bucket_counts(
      bucket_index, distribution->bucket_counts(bucket_index) + 1);
}

void UpdateLinear''', '''      bucket_index = 1 + static_cast<int>(position);
    }
  }
  IncrementBucket(bucket_index, distribution);
}

void UpdateLinear'''),
  (D, '''    bucket_index = std::distance(
        bounds.begin(), std::upper_bound(bounds.begin(), bounds.end(), value));
  }
  distribution->set_bucket_counts(
      bucket_index, distribution->bucket_counts(bucket_index) + 1);
''', '''    bucket_index = static_cast<int>(
        std::upper_bound(bounds.begin(), bounds.end(), value) - bounds.begin());
  }
  IncrementBucket(bucket_index, distribution);
'''))
r('dist-loops', 'C03 C04 C05 C06',
  (D, '''      for (int i = 0; i < first_explicit.bounds_size(); ++i) {
        if (!IsCloseEnough(first_explicit.bounds(i),
                           second_explicit.bounds(i))) {
          return false;
        }
      }
''', '''      int i = 0;
      while (i != first_explicit.bounds_size()) {
        const double x = first_explicit.bounds(i);
        const double y = second_explicit.bounds(i);
        if (!IsCloseEnough(x, y)) return false;
        i++;
      }
'''),
  (D, '''  for (unsigned int i = 0; i < bounds.size(); ++i) {
    explicit_buckets->mutable_bounds()->Add(bounds.at(i));
  }
''', '''  for (double bound : bounds) {
    explicit_buckets->add_bounds(bound);
  }
'''),
  (D, '''  for (int i = 0; i < from.bucket_counts_size(); i++) {
    to->set_bucket_counts(i, to->bucket_counts(i) + from.bucket_counts(i));
  }
''', '''  const int buckets = to->bucket_counts_size();
  for (int i = 0; i < buckets; ++i) {
    const int64_t added = from.bucket_counts(i);
    to->set_bucket_counts(i, added + to->bucket_counts(i));
  }
'''))
r('dist-sample', 'C03 C04 C05 C06',
  (D, '''  switch (distribution->bucket_option_case()) {
    case Distribution::kExponentialBuckets:
      UpdateGeneralStatictics(value, distribution);
      UpdateExponentialBucketCount(value, distribution);
      break;
    case Distribution::kLinearBuckets:
      UpdateGeneralStatictics(value, distribution);
      UpdateLinearBucketCount(value, distribution);
      break;
    case Distribution::kExplicitBuckets:
      UpdateGeneralStatictics(value, distribution);
      UpdateExplicitBucketCount(value, distribution);
      break;
''', '''  switch (distribution->bucket_option_case()) {
    case Distribution::kExponentialBuckets:
      UpdateExponentialBucketCount(value, distribution);
      UpdateGeneralStatictics(value, distribution);
      break;
    case Distribution::kLinearBuckets:
      UpdateLinearBucketCount(value, distribution);
      UpdateGeneralStatictics(value, distribution);
      break;
    case Distribution::kExplicitBuckets:
      UpdateExplicitBucketCount(value, distribution);
      UpdateGeneralStatictics(value, distribution);
      break;
'''),
  (D, '''  int bucket_index;
  if (value < lower_bound || std::isnan(value)) {
    bucket_index = 0;
  } else if (value >= upper_bound) {''', '''  int bucket_index = 0;
  if (!(value >= lower_bound)) {
    bucket_index = 0;
  } else if (!(value < upper_bound)) {'''))
r('dist-merge', 'C05',
  (D, '''  int64_t count = to->count();
  double mean = to->mean();
  double sum_of_squared_deviation = to->sum_of_squared_deviation();

  to->set_count(to->count() + from.count());
  to->set_minimum(std::min(from.minimum(), to->minimum()));
  to->set_maximum(std::max(from.maximum(), to->maximum()));
  to->set_mean((count * mean + from.count() * from.mean()) / to->count());
  to->set_sum_of_squared_deviation(
      sum_of_squared_deviation + from.sum_of_squared_deviation() +
      count * (to->mean() - mean) * (to->mean() - mean) +
      from.count() * (to->mean() - from.mean()) * (to->mean() - from.mean()));
''', '''  const int64_t count = to->count();
  const int64_t new_count = count + from.count();
  const double mean = to->mean();
  const double new_mean = (count * mean + from.count() * from.mean()) / new_count;
  const double sum_of_squared_deviation = to->sum_of_squared_deviation();

  to->set_minimum(std::min(from.minimum(), to->minimum()));
  to->set_maximum(std::max(from.maximum(), to->maximum()));
  to->set_sum_of_squared_deviation(
      sum_of_squared_deviation + from.sum_of_squared_deviation() +
      count * (new_mean - mean) * (new_mean - mean) +
      from.count() * (new_mean - from.mean()) * (new_mean - from.mean()));
  to->set_mean(new_mean);
  to->set_count(new_count);
'''))
S = 'src/signature.cc'
r('sig-loops', 'C07 C08',
  (S, '''  for (const auto& label : ordered_labels) {
    // Note we must use the Update(void const *data, int size) function here
    // for the delimiter instead of Update(StringPiece data), because
    // StringPiece would use strlen and gets zero length.
    hasher->Update(kDelimiter, kDelimiterLength);
    hasher->Update(label.first);
    hasher->Update(kDelimiter, kDelimiterLength);
    hasher->Update(label.second);
  }
''', '''  for (auto it = ordered_labels.begin(); it != ordered_labels.end(); ++it) {
    hasher->Update(kDelimiter, kDelimiterLength);
    hasher->Update(it->first);
    hasher->Update(kDelimiter, kDelimiterLength).Update(it->second);
  }
'''),
  (S, '''  for (const auto& metric_name : metric_names) {
    hasher.Update(kDelimiter, kDelimiterLength);
    hasher.Update(metric_name);
  }
''', '''  for (auto it = metric_names.cbegin(); it != metric_names.cend(); it++) {
    hasher.Update(kDelimiter, kDelimiterLength);
    hasher.Update(*it);
  }
'''))
r('sig-helper', 'C07 C08',
  (S, '''}  // namespace

string GenerateReportOperationSignature''', '''
// Separates two fields.
void UpdateHashDelimiter(MD5* hasher) {
  hasher->Update(kDelimiter, kDelimiterLength);
}
}  // namespace

string GenerateReportOperationSignature'''),
  (S, '''  hasher.Update(operation.consumer_id());
  hasher.Update(kDelimiter, kDelimiterLength);
  hasher.Update(operation.operation_name());
''', '''  hasher.Update(operation.consumer_id());
  UpdateHashDelimiter(&hasher);
  hasher.Update(operation.operation_name());
'''),
  (S, '''  hasher.Update(operation.operation_name());

  hasher.Update(kDelimiter, kDelimiterLength);
  hasher.Update(operation.consumer_id());

  hasher.Update(kDelimiter, kDelimiterLength);
  UpdateHashLabels''', '''  hasher.Update(operation.operation_name());
  UpdateHashDelimiter(&hasher);
  hasher.Update(operation.consumer_id());
  UpdateHashDelimiter(&hasher);
  UpdateHashLabels'''),
  (S, '''    metric_value_set_map[metric_value_set.metric_name()] =
        &metric_value_set.metric_values();
''', '''    auto& slot = metric_value_set_map[metric_value_set.metric_name()];
    slot = &metric_value_set.metric_values();
'''))
H = 'utils/md5.cc'
r('md5-loop', 'C31 C07',
  (H, '''  char* p = buf;
  for (int i = 0; i < kDigestLength; i++, p += 2) {
    sprintf(p, "%02x", (unsigned char)digest[i]);
  }
  *p = 0;
''', '''  for (int i = 0; i < kDigestLength; ++i) {
    sprintf(buf + 2 * i, "%02x", static_cast<unsigned char>(digest[i]));
  }
'''),
  (H, '''  if (!finalized_) {
    MD5_Final(digest_, &ctx_);
    finalized_ = true;
  }
  return std::string(reinterpret_cast<char*>(digest_), kDigestLength);
''', '''  if (!finalized_) {
    finalized_ = true;
    MD5_Final(digest_, &ctx_);
  }
  std::string result(reinterpret_cast<const char*>(digest_), kDigestLength);
  return result;
'''))
O = 'src/operation_aggregator.cc'
r('op-helper', 'C09 C10',
  (O, '''// Merges two metric values, with metric kind being Cumulative or
// Gauge.
//''', '''// Widens a time span by another one.
template <class From, class To>
void ExtendTimeSpan(const From& from, To* to) {
  if (from.has_start_time()) {
    if (!to->has_start_time() ||
        TimestampBefore(from.start_time(), to->start_time())) {
      *(to->mutable_start_time()) = from.start_time();
    }
  }

  if (from.has_end_time()) {
    if (!to->has_end_time() ||
        TimestampBefore(to->end_time(), from.end_time())) {
      *(to->mutable_end_time()) = from.end_time();
    }
  }
}

// Merges two metric values, with metric kind being Cumulative or
// Gauge.
//'''),
  (O, '''    return;
  }

  if (from.has_start_time()) {
    if (!to->has_start_time() ||
        TimestampBefore(from.start_time(), to->start_time())) {
      *(to->mutable_start_time()) = from.start_time();
    }
  }

  if (from.has_end_time()) {
    if (!to->has_end_time() ||
        TimestampBefore(to->end_time(), from.end_time())) {
      *(to->mutable_end_time()) = from.end_time();
    }
  }

  switch''', '''    return;
  }

  ExtendTimeSpan(from, to);

  switch'''),
  (O, '''  if (operation.has_start_time()) {
    if (!operation_.has_start_time() ||
        TimestampBefore(operation.start_time(), operation_.start_time())) {
      *(operation_.mutable_start_time()) = operation.start_time();
    }
  }

  if (operation.has_end_time()) {
    if (!operation_.has_end_time() ||
        TimestampBefore(operation_.end_time(), operation.end_time())) {
      *(operation_.mutable_end_time()) = operation.end_time();
    }
  }

  MergeMetricValueSets(operation);
  MergeLogEntries(operation);
''', '''  MergeLogEntries(operation);
  MergeMetricValueSets(operation);
  ExtendTimeSpan(operation, &operation_);
'''))
r('op-loops', 'C09 C10',
  (O, '''  for (const auto& entry : operation.log_entries()) {
    *(operation_.add_log_entries()) = entry;
  }
''', '''  for (int i = 0; i < operation.log_entries_size(); ++i) {
    operation_.add_log_entries()->CopyFrom(operation.log_entries(i));
  }
'''),
  (O, '''      MetricValue* existing = FindOrNull(metric_values, signature);
      if (existing == nullptr) {
        metric_values.emplace(signature, metric_value);
      } else {
        MergeMetricValue(metric_kind, metric_value, existing);
      }
''', '''      auto found = metric_values.find(signature);
      if (found != metric_values.end()) {
        MergeMetricValue(metric_kind, metric_value, &found->second);
      } else {
        metric_values[signature] = metric_value;
      }
'''),
  (O, '''  for (const auto& metric_value_set : metric_value_sets_) {
    MetricValueSet* set = op.add_metric_value_sets();
    set->set_metric_name(metric_value_set.first);

    for (const auto& metric_value : metric_value_set.second) {
      *(set->add_metric_values()) = metric_value.second;
    }
  }
''', '''  for (auto it = metric_value_sets_.begin(); it != metric_value_sets_.end();
       ++it) {
    MetricValueSet* set = op.add_metric_value_sets();
    for (const auto& metric_value : it->second) {
      set->add_metric_values()->CopyFrom(metric_value.second);
    }
    set->set_metric_name(it->first);
  }
'''))
r('op-kinds', 'C09 C10',
  (O, '''    MetricDescriptor::MetricKind metric_kind = MetricDescriptor::DELTA;
    if (metric_kinds_) {
      metric_kind =
          FindWithDefault(*metric_kinds_, metric_value_set.metric_name(),
                          MetricDescriptor::DELTA);
    }
''', '''    const MetricDescriptor::MetricKind metric_kind =
        KindOf(metric_kinds_, metric_value_set.metric_name());
'''),
  (O, '''}  //  namespace

OperationAggregator::''', '''// The kind of a metric, DELTA when nothing is known about it.
MetricDescriptor::MetricKind KindOf(
    const std::unordered_map<string, MetricDescriptor::MetricKind>* kinds,
    const string& name) {
  if (kinds == nullptr) return MetricDescriptor::DELTA;
  auto it = kinds->find(name);
  return it == kinds->end() ? MetricDescriptor::DELTA : it->second;
}

}  //  namespace

OperationAggregator::'''),
  (O, '''  if (metric_kind == MetricDescriptor::DELTA) {
    MergeDeltaMetricValue(from, to);
  } else {
    MergeCumulativeOrGaugeMetricValue(from, to);
  }
''', '''  switch (metric_kind) {
    case MetricDescriptor::DELTA:
      MergeDeltaMetricValue(from, to);
      break;
    default:
      MergeCumulativeOrGaugeMetricValue(from, to);
  }
'''),
  (O, '''  if (TimestampBefore(from.end_time(), to->end_time())) return;

  *to = from;
''', '''  if (!TimestampBefore(from.end_time(), to->end_time())) {
    to->CopyFrom(from);
  }
'''))
Q = 'src/quota_operation_aggregator.cc'
r('qop', 'C11',
  (Q, '''    auto found = metric_value_sets_.find(metric_value_set.metric_name());
    if (found == metric_value_sets_.end()) {
      metric_value_sets_[metric_value_set.metric_name()] =
          metric_value_set.metric_values(0);
    } else {
      MergeDeltaMetricValue(metric_value_set.metric_values(0), &found->second);
    }
''', '''    const MetricValue& value = metric_value_set.metric_values(0);
    const string& name = metric_value_set.metric_name();
    auto found = metric_value_sets_.find(name);
    if (found != metric_value_sets_.end()) {
      MergeDeltaMetricValue(value, &found->second);
      continue;
    }
    metric_value_sets_[name] = value;
'''),
  (Q, '''  for (auto metric_values : metric_value_sets_) {
    MetricValueSet* set = op.add_quota_metrics();
    set->set_metric_name(metric_values.first);

    *(set->add_metric_values()) = metric_values.second;
  }
''', '''  for (const auto& metric_values : metric_value_sets_) {
    MetricValueSet* set = op.add_quota_metrics();
    *(set->add_metric_values()) = metric_values.second;
    set->set_metric_name(metric_values.first);
  }
'''))
C = 'src/check_aggregator_impl.cc'
r('check-flow', 'C15 C16 C17 C29',
  (C, '''  if (elem->check_response().check_errors_size() > 0) {
    if (ShouldFlush(*elem)) {
      // Pretend that we did not find, so we can force it into a check request
      // to the server.
      //
      // Setting last check to now to block more check requests to Chemist.
      elem->set_last_check_time(SimpleCycleTimer::Now());
      // By returning NO_FOUND, caller will send request to server.
      return Status(StatusCode::kNotFound, "");
    } else {
      // Use cached response.
      *response = elem->check_response();
      return OkStatus();
    }
  } else {
    elem->Aggregate(request, metric_kinds_.get());

    if (ShouldFlush(*elem)) {
      if (elem->is_flushing()) {
        GOOGLE_LOG(WARNING) << "Last refresh request was not completed yet.";
      }
      elem->set_is_flushing(true);
      // Setting last check to now to block more check requests to Chemist.
      elem->set_last_check_time(SimpleCycleTimer::Now());
      // By returning NO_FOUND, caller will send request to server.
      return Status(StatusCode::kNotFound, "");
    }

    *response = elem->check_response();
  }
''', '''  const bool passing = elem->check_response().check_errors_size() == 0;
  if (passing) {
    elem->Aggregate(request, metric_kinds_.get());
  }
  if (ShouldFlush(*elem)) {
    if (passing) {
      if (elem->is_flushing()) {
        GOOGLE_LOG(WARNING) << "Last refresh request was not completed yet.";
      }
      elem->set_is_flushing(true);
    }
    // Setting last check to now to block more check requests to Chemist.
    elem->set_last_check_time(SimpleCycleTimer::Now());
    // By returning NO_FOUND, caller will send request to server.
    return Status(StatusCode::kNotFound, "");
  }
  response->CopyFrom(elem->check_response());
'''))
r('check-small', 'C15 C16 C17 C29',
  (C, '''      lookup.value()->set_last_check_time(now);
      lookup.value()->set_check_response(response);
      lookup.value()->set_quota_scale(quota_scale);
      lookup.value()->set_is_flushing(false);
    } else {
      CacheElem* cache_elem = new CacheElem(response, now, quota_scale);
      cache_->Insert(request_signature, cache_elem, 1);
    }
''', '''      CacheElem* elem = lookup.value();
      elem->set_is_flushing(false);
      elem->set_check_response(response);
      elem->set_quota_scale(quota_scale);
      elem->set_last_check_time(now);
    } else {
      cache_->Insert(request_signature,
                     new CacheElem(response, now, quota_scale), 1);
    }
'''),
  (C, '''  if (!elem->HasPendingCheckRequest()) {
    delete elem;
    return;
  }

  CheckRequest request;
  request = elem->ReturnCheckRequestAndClear(service_name_, service_config_id_);
  AddRemovedItem(request);
  delete elem;
''', '''  if (elem->HasPendingCheckRequest()) {
    AddRemovedItem(
        elem->ReturnCheckRequestAndClear(service_name_, service_config_id_));
  }
  delete elem;
'''),
  (C, '''  int64_t age = SimpleCycleTimer::Now() - elem.last_check_time();
''', '''  const int64_t now = SimpleCycleTimer::Now();
  const int64_t age = now - elem.last_check_time();
'''),
  (C, '''  if (cache_) {
    cache_->RemoveExpiredEntries();
  }

  return OkStatus();
''', '''  if (!cache_) return OkStatus();
  cache_->RemoveExpiredEntries();
  return OkStatus();
'''))
r('check-early', 'C15 C16 C17 C29',
  (C, '''  if (request.operation().importance() != Operation::LOW || !cache_) {
    // By returning NO_FOUND, caller will send request to server.
    return Status(StatusCode::kNotFound, "");
  }

  string request_signature = GenerateCheckRequestSignature(request);

  CheckCacheRemovedItemsHandler::StackBuffer stack_buffer(this);
  MutexLock lock(cache_mutex_);
''', '''  const bool cacheable =
      cache_ && request.operation().importance() == Operation::LOW;
  if (!cacheable) {
    // By returning NO_FOUND, caller will send request to server.
    return Status(StatusCode::kNotFound, "");
  }

  CheckCacheRemovedItemsHandler::StackBuffer stack_buffer(this);
  MutexLock lock(cache_mutex_);
  const string request_signature = GenerateCheckRequestSignature(request);
'''),
  (C, '''  if (cache_) {
    string request_signature = GenerateCheckRequestSignature(request);
    CheckCache::ScopedLookup lookup(cache_.get(), request_signature);

    int64_t now = SimpleCycleTimer::Now();
''', '''  if (cache_) {
    int64_t now = SimpleCycleTimer::Now();
    string request_signature = GenerateCheckRequestSignature(request);
    CheckCache::ScopedLookup lookup(cache_.get(), request_signature);

'''))
QA = 'src/quota_aggregator_impl.cc'
r('quota-flow', 'C18 C19 C20 C29',
  (QA, '''  if (lookup.value()->in_flight() == false &&
      ShouldRefresh(*lookup.value()) == true) {
    // Update in_flight to avoid duplicated request
    lookup.value()->set_in_flight(true);
    lookup.value()->set_last_refresh_time(SimpleCycleTimer::Now());

    AllocateQuotaRequest refresh_request =
        lookup.value()->ReturnAllocateQuotaRequestAndClear(service_name_,
                                                           service_config_id_);
    if(!lookup.value()->is_positive_response()) {
      // If the cached response is negative, then use NORMAL QuotaMode
      // instead of BEST_EFFORT
      refresh_request.mutable_allocate_operation()->
          set_quota_mode(
              QuotaOperation_QuotaMode::QuotaOperation_QuotaMode_NORMAL);
    }

    // Triggers refresh
    AddRemovedItem(refresh_request);
  }

  // Aggregate tokens if the cached response is positive
  if (lookup.value()->is_positive_response()) {
    lookup.value()->Aggregate(request);
  }

  *response = lookup.value()->quota_response();
''', '''  CacheElem* elem = lookup.value();
  const bool positive = elem->is_positive_response();
  if (!elem->in_flight() && ShouldRefresh(*elem)) {
    AllocateQuotaRequest refresh_request =
        elem->ReturnAllocateQuotaRequestAndClear(service_name_,
                                                 service_config_id_);
    elem->set_last_refresh_time(SimpleCycleTimer::Now());
    // Update in_flight to avoid duplicated request
    elem->set_in_flight(true);
    if (!positive) {
      refresh_request.mutable_allocate_operation()->set_quota_mode(
          QuotaOperation::NORMAL);
    }
    AddRemovedItem(refresh_request);
  }

  response->CopyFrom(elem->quota_response());
  if (positive) {
    elem->Aggregate(request);
  }
'''))
r('quota-insert', 'C18 C19 C20 C29',
  (QA, '''    ::google::api::servicecontrol::v1::AllocateQuotaResponse temp_response;
    CacheElem* cache_elem = new CacheElem(request, temp_response,
                                          SimpleCycleTimer::Now());
    cache_elem->set_signature(request_signature);
    cache_elem->set_in_flight(true);
    cache_->Insert(request_signature, cache_elem, 1);

    // Triggers refresh
    AddRemovedItem(request);

    // return positive response
    *response = cache_elem->quota_response();
''', '''    const ::google::api::servicecontrol::v1::AllocateQuotaResponse temp_response;
    const int64_t now = SimpleCycleTimer::Now();
    std::unique_ptr<CacheElem> elem(new CacheElem(request, temp_response, now));
    elem->set_in_flight(true);
    elem->set_signature(request_signature);
    cache_->Insert(request_signature, elem.release(), 1);

    // Triggers refresh
    AddRemovedItem(request);

    // return positive response
    response->Clear();
'''),
  (QA, '''  if (lookup.Found()) {
    lookup.value()->set_in_flight(false);
    lookup.value()->set_quota_response(response);
  }
''', '''  if (!lookup.Found()) {
    return ::google::protobuf::util::OkStatus();
  }
  lookup.value()->set_quota_response(response);
  lookup.value()->set_in_flight(false);
'''),
  (QA, '''  int64_t age = SimpleCycleTimer::Now() - elem.last_refresh_time();
  return age >= expiration_interval_in_cycle_;
''', '''  return !(SimpleCycleTimer::Now() - elem.last_refresh_time() <
           expiration_interval_in_cycle_);
'''))
r('quota-delete', 'C18 C19 C20 C29',
  (QA, '''  const bool keep = in_flush_all_ == false && ShouldDrop(*elem) == false;
  if (keep && cache_->Size() >= cache_->MaxSize()) {''', '''  if (in_flush_all_ || ShouldDrop(*elem)) {
    delete elem;
    return;
  }
  if (cache_->Size() >= cache_->MaxSize()) {'''),
  (QA, '''  } else if (keep) {
    // insert the element back to the cache''', '''  } else {
    // insert the element back to the cache'''),
  (QA, '''        service_name_, service_config_id_));
    }
  } else {
    delete elem;
  }
''', '''        service_name_, service_config_id_));
    }
  }
'''))
RA = 'src/report_aggregator_impl.cc'
r('report-flow', 'C12 C13 C14 C29',
  (RA, '''  for (const auto& operation : request.operations()) {
    if (operation.importance() != Operation::LOW) {
      return true;
    }
  }
  return false;
''', '''  bool high = false;
  for (int i = 0; i < request.operations_size() && !high; ++i) {
    high = request.operations(i).importance() != Operation::LOW;
  }
  return high;
'''),
  (RA, '''      if (lookup.Found()) {
        lookup.value()->MergeOperation(operation);
        too_big = lookup.value()->TooBig();
      } else {
        OperationAggregator* iop =
            new OperationAggregator(operation, metric_kinds_.get());
        cache_->Insert(signature, iop, 1);
      }
''', '''      if (!lookup.Found()) {
        cache_->Insert(
            signature, new OperationAggregator(operation, metric_kinds_.get()),
            1);
      } else {
        OperationAggregator* iop = lookup.value();
        iop->MergeOperation(operation);
        too_big = iop->TooBig();
      }
'''),
  (RA, '''  if (old_item->service_name() != new_item.service_name() ||
      old_item->operations().size() + new_item.operations().size() >
          kMaxOperationsToSend) {
    return false;
  }
  old_item->MergeFrom(new_item);
  return true;
''', '''  const bool same_service = old_item->service_name() == new_item.service_name();
  const int total = new_item.operations_size() + old_item->operations_size();
  const bool mergeable = same_service && total <= kMaxOperationsToSend;
  if (mergeable) old_item->MergeFrom(new_item);
  return mergeable;
'''))
r('report-delete', 'C12 C13 C14 C29',
  (RA, '''  ReportRequest request;
  request.set_service_name(service_name_);
  request.set_service_config_id(service_config_id_);
  // TODO(qiwzhang): Remove this copy
  *(request.add_operations()) = iop->ToOperationProto();
  delete iop;

  AddRemovedItem(request);
''', '''  std::unique_ptr<OperationAggregator> owned(iop);
  ReportRequest request;
  request.add_operations()->CopyFrom(owned->ToOperationProto());
  request.set_service_config_id(service_config_id_);
  request.set_service_name(service_name_);
  AddRemovedItem(request);
'''),
  (RA, '''  if (HasHighImportantOperation(request) || !cache_) {''', '''  if (!cache_ || HasHighImportantOperation(request)) {'''),
  (RA, '''  if (cache_) {
    cache_->RemoveAll();
  }
  return OkStatus();
''', '''  if (cache_ != nullptr) cache_->RemoveAll();
  Status status = OkStatus();
  return status;
'''))
X = 'src/cache_removed_items_handler.h'
r('handler', 'C13 C14 C17 C19 C29',
  (X, '''      if (items_.empty() ||
          !handler_->MergeItem(item, &items_[items_.size() - 1])) {
        items_.push_back(item);
      }
''', '''      if (!items_.empty() && handler_->MergeItem(item, &items_.back())) {
        return;
      }
      items_.push_back(item);
'''),
  (X, '''      for (const auto& request : items_) {
        handler_->FlushOut(request);
      }
''', '''      for (size_t i = 0; i < items_.size(); ++i) {
        handler_->FlushOut(items_[i]);
      }
'''),
  (X, '''    if (stack_buffer_) {
      stack_buffer_->Add(item);
    }
''', '''    StackBuffer* buffer = stack_buffer_;
    if (buffer == NULL) return;
    buffer->Add(item);
'''))
K = 'src/service_control_client_impl.cc'
r('client-stat', 'C25 C26 C27 C28 C30',
  (K, '''  ++total_called_checks_;
  if (check_transport == NULL) {''', '''  total_called_checks_.fetch_add(1);
  if (!check_transport) {'''),
  (K, '''  ++send_reports_by_flush_;
  send_report_operations_ += report_request.operations_size();
''', '''  const int operations = report_request.operations_size();
  send_report_operations_ += operations;
  send_reports_by_flush_++;
'''),
  (K, '''  return std::min(check_interval, std::min(quota_interval, report_interval));''', '''  int interval = check_interval;
  if (quota_interval < interval) interval = quota_interval;
  if (report_interval < interval) interval = report_interval;
  return interval;'''),
  (K, '''  report_aggregator_->SetFlushCallback(
      std::bind(&ServiceControlClientImpl::ReportFlushCallback, this,
                std::placeholders::_1));
''', '''  report_aggregator_->SetFlushCallback(
      [this](const ReportRequest& request) { ReportFlushCallback(request); });
'''))
r('client-count-first', 'C25 C26 C27 C28 C30',
  (K, '''    check_transport(*check_request_copy, check_response,''', '''    ++send_checks_in_flight_;
    check_transport(*check_request_copy, check_response,'''),
  (K, '''                      on_check_done(status);
                    });
    ++send_checks_in_flight_;
    return;''', '''                      on_check_done(status);
                    });
    return;'''),
  (K, '''    report_transport(report_request, report_response, on_report_done);
    ++send_reports_in_flight_;
    send_report_operations_ += report_request.operations_size();
    return;
  }
  on_report_done(status);
''', '''    send_report_operations_ += report_request.operations_size();
    ++send_reports_in_flight_;
    report_transport(report_request, report_response, on_report_done);
  } else {
    on_report_done(status);
  }
'''))
r('client-owned', 'C25 C26 C27 C28 C30',
  (K, '''    CheckRequest* check_request_copy = new CheckRequest(check_request);
    std::shared_ptr<CheckAggregator> check_aggregator_copy = check_aggregator_;''', '''    auto check_request_copy = std::make_shared<CheckRequest>(check_request);
    std::shared_ptr<CheckAggregator> check_aggregator_copy = check_aggregator_;'''),
  (K, '''                      delete check_request_copy;
                      on_check_done(status);
''', '''                      on_check_done(status);
'''))
r('client-helper', 'C25 C26 C27 C28 C30',
  (K, '''  Report(report_request, report_response, [&status_promise](Status status) {
    // Need to move the promise as it must be owned by the thread where this
    // lambda is executed rather than the thread where the original Report()
    // call is executed.
    // Otherwise, if we call std::promise::set_value(), the original thread will
    // be unblocked and it might destroy the promise object before set_value()
    // has a chance to finish.
    StatusPromise moved_promise(std::move(status_promise));
    moved_promise.set_value(status);
  });

  status_future.wait();
  return status_future.get();
''', '''  Report(report_request, report_response, [&status_promise](Status status) {
    StatusPromise moved_promise(std::move(status_promise));
    moved_promise.set_value(status);
  });
  return status_future.get();
'''),
  (K, '''          status = quota_aggregator_copy->Flush();
          if (!status.ok()) {
            GOOGLE_LOG(ERROR) << "Failed in AllocateQuota::Flush() "
                              << status.message();
          }

          status = report_aggregator_copy->Flush();
          if (!status.ok()) {
            GOOGLE_LOG(ERROR) << "Failed in Report::Flush() "
                              << status.message();
          }
''', '''          status = report_aggregator_copy->Flush();
          if (!status.ok()) {
            GOOGLE_LOG(ERROR) << "Failed in Report::Flush() "
                              << status.message();
          }

          status = quota_aggregator_copy->Flush();
          if (!status.ok()) {
            GOOGLE_LOG(ERROR) << "Failed in AllocateQuota::Flush() "
                              << status.message();
          }
'''),
  (K, '''  check_aggregator_->SetFlushCallback(NULL);
  quota_aggregator_->SetFlushCallback(NULL);
  report_aggregator_->SetFlushCallback(NULL);
''', '''  report_aggregator_->SetFlushCallback(nullptr);
  quota_aggregator_->SetFlushCallback(nullptr);
  check_aggregator_->SetFlushCallback(nullptr);
'''))

L = 'utils/simple_lru_cache_inl.h'
r('lru-gc', 'C21 C22 C23 C24',
  (L, """  Elem* e = head_.prev;
  while (IsOverfullInternal() && (e != &head_)) {
    Elem* prev = e->prev;
    if (e->pin == 0) {
      // Erase from hash-table
      TableIterator iter = table_.find(e->key);
      assert(iter != table_.end());
      assert(iter->second == e);
      table_.erase(iter);
      e->Unlink();
      Discard(e);
    }
    e = prev;
  }
""", """  for (Elem* e = head_.prev; e != &head_;) {
    if (!IsOverfullInternal()) break;
    Elem* const candidate = e;
    e = e->prev;
    if (candidate->pin > 0) continue;
    candidate->Unlink();
    // Erase from hash-table
    table_.erase(table_.find(candidate->key));
    Discard(candidate);
  }
"""))
r('lru-update-size', 'C21 C22 C23',
  (L, """    Elem* e = table_iter->second;
    units_ -= e->units;
    if (e->pin > 0) {
      pinned_units_ -= e->units;
    }
    e->units = units;
    units_ += e->units;
    if (e->pin > 0) {
      pinned_units_ += e->units;
    }
""", """    Elem* e = table_iter->second;
    const size_t before = e->units;
    e->units = units;
    units_ = units_ - before + units;
    if (e->pin > 0) pinned_units_ = pinned_units_ - before + units;
"""),
  (L, """      const Elem* const head = iter->second;
      Elem* e = iter->second;
      do {
        if (e->value == value || value == nullptr) {
          units_ -= e->units;
          e->units = units;
          units_ += e->units;
        }
        e = e->prev;
      } while (e != head);
""", """      Elem* const head = iter->second;
      Elem* e = head;
      for (;;) {
        if (value == nullptr || e->value == value) {
          units_ += units - e->units;
          e->units = units;
        }
        e = e->prev;
        if (e == head) break;
      }
"""))
r('lru-lookup', 'C21 C22 C23 C24',
  (L, """  TableIterator iter = table_.find(k);
  if (iter != table_.end()) {
    // We set last_use_ upon Release, not during Lookup.
    Elem* e = iter->second;
    if (e->pin == 0) pinned_units_ += e->units;
    // We are pinning this entry, take it off the LRU list if we are in LRU
    // mode. In strict age-based mode entries stay on the list while pinned.
    if (lru_ && options.update_eviction_order()) e->Unlink();
    e->pin++;
    return e->value;
  }
  return nullptr;
""", """  const TableIterator iter = table_.find(k);
  if (iter == table_.end()) return nullptr;
  // We set last_use_ upon Release, not during Lookup.
  Elem* e = iter->second;
  const bool leaves_order = lru_ && options.update_eviction_order();
  if (e->pin++ == 0) {
    pinned_units_ += e->units;
  }
  if (leaves_order) {
    e->Unlink();
  }
  return e->value;
"""))
r('lru-remove', 'C21 C22 C23 C24',
  (L, """    DeferredTableIterator iter = defer_.find(e->key);
    if (iter == defer_.end()) {
      // Inserting a new key, the element becomes the head of the list.
      e->prev = e->next = e;
      defer_[e->key] = e;
    } else {
      // There is already a deferred list for this key, attach the element to it
      Elem* head = iter->second;
      e->Link(head);
    }
  } else {
    Discard(e);
  }
""", """    auto added = defer_.insert(std::make_pair(e->key, e));
    if (added.second) {
      // Inserting a new key, the element becomes the head of the list.
      e->next = e;
      e->prev = e;
    } else {
      // There is already a deferred list for this key, attach the element to it
      e->Link(added.first->second);
    }
    return;
  }
  Discard(e);
"""))
r('lru-remove2', 'C21 C22 C23 C24',
  (L, """    DeferredTableIterator iter = defer_.find(e->key);
    if (iter == defer_.end()) {
      // Inserting a new key, the element becomes the head of the list.
      e->prev = e->next = e;
      defer_[e->key] = e;
    } else {
""", """    DeferredTableIterator iter = defer_.find(e->key);
    if (defer_.end() == iter) {
      // Inserting a new key, the element becomes the head of the list.
      defer_[e->key] = e;
      e->next = e;
      e->prev = e->next;
    } else {
"""))
r('lru-removeall', 'C21 C22 C23 C24',
  (L, """  for (TableIterator iter = table_.begin(); iter != table_.end(); ++iter) {
    Remove(iter->second);
  }
  table_.clear();
""", """  for (auto& entry : table_) {
    Remove(entry.second);
  }
  table_.clear();
"""),
  (L, """  for (Elem* e = head_.next; e != &head_;) {
    Elem* next = e->next;
    if (e->pin == 0) Remove(e->key);
    e = next;
  }
""", """  Elem* e = head_.next;
  while (e != &head_) {
    Elem* current = e;
    e = current->next;
    if (current->pin != 0) continue;
    Remove(current->key);
  }
"""))
r('lru-release', 'C21 C22 C23 C24',
  (L, """      if (e->value == value) {
        // Found in deferred list: release it
        assert(e->pin > 0);
        e->pin--;
        if (e->pin == 0) {
""", """      if (e->value == value) {
        // Found in deferred list: release it
        assert(e->pin > 0);
        if (--e->pin == 0) {
"""),
  (L, """    if (lru_ && options.update_eviction_order()) {
      e->last_use_ = SimpleCycleTimer::Now();
    }
    e->pin--;

    if (e->pin == 0) {
""", """    e->pin--;
    if (options.update_eviction_order() && lru_) {
      e->last_use_ = SimpleCycleTimer::Now();
    }
    if (e->pin == 0) {
"""),
  (L, """      pinned_units_ -= e->units;
      if (IsOverfullInternal()) {
        // This element is no longer needed, and we are full.  So kick it out.
        Remove(k);
      }
""", """      pinned_units_ -= e->units;
      // This element is no longer needed; if we are full kick it out.
      if (!IsOverfullInternal()) return;
      Remove(k);
"""))
r('lru-insert', 'C21 C22 C23 C24',
  (L, """  // Adjust table, total units fields.
  units_ += units;
  pinned_units_ += units;
  table_[k] = e;

  // If we are in the strict age-based eviction mode, the entry goes on the LRU
  // list now and is never removed. In the LRU mode, the list will only contain
  // unpinned entries.
  if (!lru_) e->Link(&head_);
  GarbageCollect();
""", """  // If we are in the strict age-based eviction mode, the entry goes on the LRU
  // list now and is never removed. In the LRU mode, the list will only contain
  // unpinned entries.
  if (!lru_) e->Link(&head_);

  // Adjust table, total units fields.
  table_.insert(std::make_pair(k, e));
  pinned_units_ += units;
  units_ += units;
  GarbageCollect();
"""))
r('lru-link', 'C21 C22 C23 C24',
  (L, """    next = head->next;
    prev = head;
    next->prev = this;  // i.e. head->next->prev = this;
    prev->next = this;  // i.e. head->next = this;
""", """    SimpleLRUCacheElem* first = head->next;
    prev = head;
    next = first;
    head->next = this;
    first->prev = this;
"""),
  (L, """    if (!IsLinked()) return;
    prev->next = next;
    next->prev = prev;
    prev = nullptr;
    next = nullptr;
""", """    if (IsLinked()) {
      next->prev = prev;
      prev->next = next;
      next = prev = nullptr;
    }
"""))


def run(id):
    props, edits = R[id]
    w = tempfile.mkdtemp(prefix='rf_')
    subprocess.check_call(['cp', '-a', '/repo', w + '/repo'])
    for f, old, new in edits:
        p = w + '/repo/' + f
        t = open(p).read()
        assert t.count(old) == 1, (id, f, t.count(old), old)
        open(p, 'w').write(t.replace(old, new))
    sel = os.environ.get('PROPS', '').split() or props
    cmd = '''mount --bind %(w)s/repo /repo; cd /repo
bash /opt/vp/build.sh >%(w)s/b.log 2>&1 || { echo "REF %(id)s: build fails"; grep error %(w)s/b.log | head; exit; }
[ -n "$NOTEST" ] || { bash /opt/vp/test.sh %(w)s/o.json >/dev/null 2>&1; python3 -c "
import json; o=json.load(open('%(w)s/o.json')); print('REF %(id)s: tests', len(o['passed']), o['failed'][:3])"; }
export DV_BUILD=%(w)s/build; mkdir -p $DV_BUILD; cp -a /verif/build/pb $DV_BUILD/pb
for p in %(ps)s; do DV_EVID=%(w)s/evid %(v)s/check $p > %(w)s/$p.log 2>&1; echo "REF %(id)s $p rc $?: $(grep -v '^  ' %(w)s/$p.log | tail -2 | cut -c1-220)"; grep '^  ' %(w)s/$p.log | cut -c1-${CUT:-260} | sort | uniq -c | head -${LINES_:-4}; done
''' % dict(w=w, id=id, v=os.environ.get('VERIF_DIR', '/verif'), ps=' '.join(sel))
    subprocess.call(['unshare', '-Urm', 'bash', '-c', cmd])
    subprocess.call(['rm', '-rf', w])


if __name__ == '__main__':
    for id in sys.argv[1:] or list(R):
        run(id)
